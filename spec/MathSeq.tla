------------------------------ MODULE MathSeq -------------------------------
(* Lazy mathematical sequences (unpythonic.mathseq).                         *)
(*  "spec":  s(a0, a1, ..., [last]): which terms the specification denotes.  *)
(*  "cyc":   s(initials, [repeats], ...).                                    *)
(*  "op":    termwise operations between sequences, nested sequences and     *)
(*           scalars; operands are symbolic, the result is a tree of terms.  *)
(*  "diag":  diagonal reduction / Cauchy product, with finite inputs.        *)
(*  "nums":  primes, Fibonacci and triangular numbers by definition.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Nums, Lasts, NSpec, MaxN, Group
VARIABLES c
RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>} ELSE LET T == TLCEval(SeqsUpTo(S, n - 1)) IN T \union {Append(s, x) : s \in {t \in T : Len(t) = n - 1}, x \in S}
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Pw(_, _)
Pw(b, e) == IF e = 0 THEN 1 ELSE b * Pw(b, e - 1)
NoLast == 9999
\* ---------------------------------------------------------------- formulas
IsArith(t) == Len(t) = 1 \/ \A i \in 1..(Len(t) - 2) : t[i + 1] - t[i] = t[i + 2] - t[i + 1]
IsGeom(t) == Len(t) >= 3 /\ (\A i \in 1..Len(t) : t[i] # 0) /\ \A i \in 1..(Len(t) - 2) : t[i + 1] * t[i + 1] = t[i] * t[i + 2]
\* |x| = g^e for a prime g
LogT == [x \in 1..400 |-> LET S == {<<g, e>> \in {2, 3, 5, 7, 11, 13} \X (1..8) : (g > 3 => e <= 3) /\ Pw(g, e) = x} IN IF S = {} THEN <<0, 0>> ELSE CHOOSE q \in S : TRUE]
Log(x) == IF x = 0 THEN <<0, 0>> ELSE LogT[Abs(x)]
\* a power sequence: |t[i]| = g^e[i], e[i+1]/e[i] = p constant; signs as powers of t[1]
IsPower(t) ==
  LET l == [i \in 1..Len(t) |-> Log(t[i])] IN
  /\ Len(t) >= 3
  /\ \A i \in 1..Len(t) : l[i][1] # 0 /\ l[i][1] = l[1][1]
  /\ \A i \in 1..(Len(t) - 2) : l[i + 1][2] * l[i + 1][2] = l[i][2] * l[i + 2][2]
  /\ l[2][2] # l[1][2]
  /\ IF t[1] > 0 THEN \A i \in 1..Len(t) : t[i] > 0
     ELSE /\ l[2][2] % l[1][2] = 0
          /\ LET p == l[2][2] \div l[1][2] IN \A i \in 2..Len(t) : IF p % 2 = 1 THEN t[i] < 0 ELSE t[i] > 0
Kind(t) == IF IsArith(t) THEN IF Len(t) = 1 \/ t[1] = t[2] THEN "const" ELSE "arith"
           ELSE IF IsGeom(t) THEN "geom" ELSE IF IsPower(t) THEN "power" ELSE "none"
\* term j (from 0), as <<numerator, denominator>>; a power term as <<sign, base, exponent numerator, exponent denominator>>
Term(t, k, j) == CASE k = "const" -> <<t[1], 1>>
                   [] k = "arith" -> <<t[1] + j * (t[2] - t[1]), 1>>
                   [] k = "geom" -> <<t[1] * Pw(t[2], j), Pw(t[1], j)>>
                   [] k = "power" -> LET a == Log(t[1])[2]  b == Log(t[2])[2]
                                         p == IF b % a = 0 THEN b \div a ELSE 2
                                     IN <<IF t[1] < 0 /\ (j = 0 \/ p % 2 = 1) THEN -1 ELSE 1, Log(t[1])[1], a * Pw(b, j), Pw(a, j)>>
\* is term j equal to the integer x
Hits(t, k, j, x) == LET q == Term(t, k, j) IN
                    IF k # "power" THEN q[1] % Abs(q[2]) = 0 /\ (IF q[2] > 0 THEN q[1] ELSE 0 - q[1]) \div Abs(q[2]) = x
                    ELSE q[3] % q[4] = 0 /\ q[3] \div q[4] <= 10 /\ (q[2] > 3 => q[3] \div q[4] <= 3) /\ q[1] * Pw(q[2], q[3] \div q[4]) = x
Big(t) == \E i \in 1..2 : Abs(t[i]) > 16
MaxJ(t, k) == IF k = "power" THEN 3 ELSE IF k = "geom" THEN IF Big(t) THEN 3 ELSE 6 ELSE 0
SpecResult(t, last) ==
  LET k == TLCEval(Kind(t)) IN
  IF k = "none" THEN [ok |-> FALSE, kind |-> k, n |-> 0, terms |-> <<>>]
  ELSE IF last = NoLast THEN LET n == IF k = "power" \/ (k = "geom" /\ Big(t)) THEN 4 ELSE 5 IN [ok |-> TRUE, kind |-> k, n |-> 0, terms |-> [j \in 1..n |-> Term(t, k, j - 1)]]
  ELSE IF k = "const" \/ (k = "geom" /\ t[1] = 0 - t[2]) THEN [ok |-> FALSE, kind |-> k, n |-> 0, terms |-> <<>>]      \* the number of terms is not determined
  ELSE LET d == t[2] - t[1]
           J == IF k = "arith" THEN {j \in {Abs(last - t[1]) \div Abs(d)} : j > 0 /\ t[1] + j * d = last} ELSE {j \in 1..MaxJ(t, k) : Hits(t, k, j, last)} IN
       IF J = {} THEN [ok |-> FALSE, kind |-> k, n |-> 0, terms |-> <<>>]
       ELSE LET n == (CHOOSE j \in J : TRUE) + 1 IN [ok |-> TRUE, kind |-> k, n |-> n, terms |-> [j \in 1..Min(n, 12) |-> Term(t, k, j - 1)]]
\* ---------------------------------------------------------------- termwise
\* an operand: scalar [q |-> "x", v |-> name, k |-> <<>>] or sequence [q |-> "s", v |-> "", k |-> operands]
Sc(n) == [q |-> "x", v |-> n, k |-> <<>>]
Sq(s) == [q |-> "s", v |-> "", k |-> s]
Ops2 == {"add", "sub", "mul", "truediv", "floordiv", "mod", "divmod", "pow", "lshift", "rshift", "and", "xor", "or", "lt", "le", "eq", "ne", "ge", "gt"}
Ops1 == {"neg", "pos", "abs", "invert", "round", "trunc", "floor", "ceil"}
RECURSIVE Ap2(_, _, _)
Ap2(o, a, b) == IF a.q = "x" /\ b.q = "x" THEN Sc("(" \o a.v \o " " \o o \o " " \o b.v \o ")")
                ELSE IF a.q = "s" /\ b.q = "s" THEN Sq([i \in 1..Min(Len(a.k), Len(b.k)) |-> Ap2(o, a.k[i], b.k[i])])
                ELSE IF a.q = "s" THEN Sq([i \in 1..Len(a.k) |-> Ap2(o, a.k[i], b)])
                ELSE Sq([i \in 1..Len(b.k) |-> Ap2(o, a, b.k[i])])
RECURSIVE Ap1(_, _)
Ap1(o, a) == IF a.q = "x" THEN Sc("(" \o o \o " " \o a.v \o ")") ELSE Sq([i \in 1..Len(a.k) |-> Ap1(o, a.k[i])])
RECURSIVE Relabel(_, _)
Relabel(a, p) == IF a.q = "x" THEN Sc(p) ELSE Sq([i \in 1..Len(a.k) |-> Relabel(a.k[i], p \o ToString(i))])
Shapes == {Sc("")} \union {Sq(s) : s \in SeqsUpTo({Sc(""), Sq(<<Sc(""), Sc("")>>), Sq(<<>>)}, 2)} \union {Sq(<<Sc(""), Sc(""), Sc("")>>)}
\* ---------------------------------------------------------------- diagonals
RECURSIVE Pairs(_, _, _, _)
Pairs(k, i, la, lb) == IF i > k THEN <<>> ELSE (IF i < la /\ k - i < lb THEN <<<<i, k - i>>>> ELSE <<>>) \o Pairs(k, i + 1, la, lb)
DiagLen(la, lb, req) == IF req = "any" THEN (IF la = 0 \/ lb = 0 THEN 0 ELSE la + lb - 1) ELSE Min(la, lb)
Diag(la, lb, req) == [k \in 1..DiagLen(la, lb, req) |-> Pairs(k - 1, 0, la, lb)]
\* ---------------------------------------------------------------- numbers
RECURSIVE Fib(_)
Fib(n) == IF n <= 2 THEN 1 ELSE Fib(n - 1) + Fib(n - 2)
Tri(n) == (n * (n + 1)) \div 2
Primes(n) == {p \in 2..n : \A d \in 2..(p - 1) : p % d # 0}
\* ---------------------------------------------------------------- cases
Init == \/ Group = "spec" /\ \E n \in NSpec : \E t \in [1..n -> Nums], l \in Lasts \union {NoLast} : c = [g |-> "spec", t |-> t, last |-> l]
        \/ Group = "spec4" /\ \E a \in Nums, d \in Nums, m \in 0..1, e \in {-1, 0, 1}, n \in 4..5, l \in Lasts \union {NoLast} :
              /\ Abs(a) <= 4 /\ Abs(d) <= 3
              /\ LET base == [i \in 1..n |-> IF m = 0 THEN a + (i - 1) * d ELSE a * Pw(d, i - 1)]
                 IN \E p \in 1..n : c = [g |-> "spec", t |-> [base EXCEPT ![p] = @ + e], last |-> l]
        \/ Group = "op" /\ \E a \in Shapes, b \in Shapes, o \in Ops2 : ~(a.q = "x" /\ b.q = "x") /\ c = [g |-> "op2", o |-> o, a |-> Relabel(a, "a"), b |-> Relabel(b, "b")]
        \/ Group = "op" /\ \E a \in Shapes, o \in Ops1 : a.q = "s" /\ c = [g |-> "op1", o |-> o, a |-> Relabel(a, "a"), b |-> Sc("")]
        \/ Group = "diag" /\ \E ls \in ((0..MaxN) \X (0..MaxN)) \union {<<100, 100>>, <<130, 3>>, <<2, 130>>}, r \in {"any", "all"} : LET la == ls[1] lb == ls[2] IN c = [g |-> "diag", la |-> la, lb |-> lb, req |-> r]
        \/ Group = "cyc" /\ \E i \in SeqsUpTo({0, 1}, 2), r \in SeqsUpTo({0, 1, 2}, 3) : c = [g |-> "cyc", i |-> i, r |-> r]
        \/ Group = "nums" /\ \E n \in {10, 100, 1500} : c = [g |-> "nums", n |-> n]
Next == UNCHANGED c
Expected == CASE c.g = "spec" -> SpecResult(c.t, c.last)
              [] c.g = "op2" -> Ap2(c.o, c.a, c.b)
              [] c.g = "op1" -> Ap1(c.o, c.a)
              [] c.g = "diag" -> [d |-> Diag(c.la, c.lb, c.req)]
              [] c.g = "cyc" -> [out |-> [k \in 1..8 |-> IF k <= Len(c.i) THEN c.i[k] ELSE IF c.r = <<>> THEN 0 ELSE c.r[((k - Len(c.i) - 1) % Len(c.r)) + 1]]]
              [] c.g = "nums" -> [fib |-> [k \in 1..20 |-> Fib(k)], tri |-> [k \in 1..30 |-> Tri(k)], primes |-> [n \in 1..c.n |-> IF n > 1 /\ \A d \in 2..(IF n < 40 THEN n - 1 ELSE n \div 5) : n % d # 0 THEN 1 ELSE 0]]
\* the given terms are terms of the sequence; a final element is the last one
Inv == c.g = "spec" => LET r == Expected IN
       r.ok => /\ \A i \in 1..Min(Len(c.t), Len(r.terms)) : Hits(c.t, r.kind, i - 1, c.t[i])
               /\ (c.last # NoLast => Hits(c.t, r.kind, r.n - 1, c.last))
Emit == PrintT("@@" \o ToJson([c |-> c, r |-> Expected]))
=============================================================================
