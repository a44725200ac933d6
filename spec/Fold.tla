-------------------------------- MODULE Fold --------------------------------
(* Folds, scans and unfolds (unpythonic.fold). The folded procedure is       *)
(* symbolic: it returns the term of its arguments, so that which arguments   *)
(* it is given, in which order, is visible in the result. need[k] is the     *)
(* most items of the first input that may have been read at output k.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Vals, MaxLen, MaxStates, MaxOut, Group
VARIABLES c
RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>} ELSE LET T == TLCEval(SeqsUpTo(S, n - 1)) IN T \union {Append(s, x) : s \in {t \in T : Len(t) = n - 1}, x \in S}
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Nm(x) == ToString(x)
\* tuples of corresponding items, as strings
Lens(ss) == {Len(ss[i]) : i \in 1..Len(ss)}
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE Head(q) \o "," \o Join(Tail(q))
Zip(ss, longest) == LET n == IF longest THEN MaxS(Lens(ss)) ELSE MinS(Lens(ss))
                    IN [k \in 1..n |-> Join([i \in 1..Len(ss) |-> IF k <= Len(ss[i]) THEN Nm(ss[i][k]) ELSE "fill"])]
RECURSIVE Scan(_, _, _)
Scan(z, acc, out) == IF z = <<>> THEN Append(out, acc) ELSE Scan(Tail(z), "(" \o Head(z) \o acc \o ")", Append(out, acc))
RevEach(ss) == [i \in 1..Len(ss) |-> Rev(ss[i])]
Multi == {"scanl", "scanr", "rscanl"}                 \* and the folds, which give the last output
One == {"scanl1", "scanr1", "rscanl1"}                \* and the reductions
Init == \/ Group = "multi" /\ \E f \in Multi, ss \in UNION {[1..n -> SeqsUpTo(Vals, IF n = 1 THEN MaxLen ELSE 2)] : n \in 1..2} \union {<<<<0, 1>>, a, b>> : a \in SeqsUpTo(Vals, 2), b \in SeqsUpTo({1}, 3)}, l \in BOOLEAN :
              c = [f |-> f, ss |-> ss, longest |-> l, init |-> 1, tab |-> <<>>]
        \/ Group = "one" /\ \E f \in One, s \in SeqsUpTo(Vals, MaxLen), i \in {0, 1} : c = [f |-> f, ss |-> <<s>>, longest |-> FALSE, init |-> i, tab |-> <<>>]
        \/ Group = "one" /\ \E s \in SeqsUpTo({-1, 0, 1, 3}, MaxLen), i \in {0, 1} : c = [f |-> "minmax", ss |-> <<s>>, longest |-> FALSE, init |-> i, tab |-> <<>>]
        \/ Group = "unfold" /\ \E m \in 1..MaxStates : \E t \in [1..m -> Vals \X (0..m)] : c = [f |-> "unfold", ss |-> <<>>, longest |-> FALSE, init |-> 1, tab |-> t]
Next == UNCHANGED c
RECURSIVE Unf(_, _, _)
Unf(t, st, out) == IF st = 0 \/ Len(out) = MaxOut THEN out ELSE Unf(t, t[st][2], Append(out, Nm(t[st][1])))
RECURSIVE UnfStates(_, _, _)
UnfStates(t, st, out) == IF st = 0 \/ Len(out) = MaxOut THEN Append(out, st) ELSE UnfStates(t, t[st][2], Append(out, st))
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Prefix(s, k) == {s[i] : i \in 1..k}
R(out, need) == [out |-> out, need |-> need]
Expected ==
  LET ss == c.ss  L == IF ss = <<>> THEN 0 ELSE Len(ss[1]) IN
  CASE c.f = "scanl" -> LET o == Scan(Zip(ss, c.longest), "init", <<>>) IN R(o, [k \in 1..Len(o) |-> Min(k - 1, L)])
    [] c.f = "scanr" -> LET o == Scan(Rev(Zip(ss, c.longest)), "init", <<>>) IN R(o, [k \in 1..Len(o) |-> L])
    [] c.f = "rscanl" -> LET o == Scan(Zip(RevEach(ss), c.longest), "init", <<>>) IN R(o, [k \in 1..Len(o) |-> L])
    [] c.f = "scanl1" -> IF c.init = 0 THEN IF L = 0 THEN R(<<>>, <<>>) ELSE LET o == Scan(Tail(Zip(ss, FALSE)), Nm(ss[1][1]), <<>>) IN R(o, [k \in 1..Len(o) |-> k])
                         ELSE LET o == Scan(Zip(ss, FALSE), "init", <<>>) IN R(o, [k \in 1..Len(o) |-> k - 1])
    [] c.f \in {"scanr1", "rscanl1"} ->
                         IF c.init = 0 THEN IF L = 0 THEN R(<<>>, <<>>) ELSE LET o == Scan(Tail(Rev(Zip(ss, FALSE))), Nm(ss[1][L]), <<>>) IN R(o, [k \in 1..Len(o) |-> L])
                         ELSE LET o == Scan(Rev(Zip(ss, FALSE)), "init", <<>>) IN R(o, [k \in 1..Len(o) |-> L])
    [] c.f = "minmax" -> R([k \in 1..L |-> <<MinS(Prefix(ss[1], k)), MaxS(Prefix(ss[1], k))>>], [k \in 1..L |-> k])
    [] c.f = "unfold" -> R(Unf(c.tab, 1, <<>>), UnfStates(c.tab, 1, <<>>))
\* a fold is linear: one call for each tuple of corresponding items, each result used exactly once as the next accumulator
Inv == (c.f \in Multi) => LET n == IF c.longest THEN MaxS(Lens(c.ss)) ELSE MinS(Lens(c.ss)) IN Len(Expected.out) = n + 1 /\ Expected.out[1] = "init"
Emit == PrintT("@@" \o ToJson([c |-> c, r |-> Expected, prod |-> IF c.f = "minmax" THEN Prod(c.ss[1]) ELSE 0]))
=============================================================================
