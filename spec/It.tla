--------------------------------- MODULE It ---------------------------------
(* Lazy iterables (unpythonic.it, unpythonic.slicing.islice). A case is one  *)
(* state: a function, its numeric parameters, and the input sequence(s).     *)
(* Expected: the items produced, and for the k-th of them the most input     *)
(* items that may have been consumed when it is delivered (need), and the    *)
(* most that may have been consumed when the output has ended (total).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Slices
CONSTANTS Vals, MaxLen, MaxN, Group
VARIABLES c
RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>} ELSE LET T == TLCEval(SeqsUpTo(S, n - 1)) IN T \union {Append(s, x) : s \in {t \in T : Len(t) = n - 1}, x \in S}
In == SeqsUpTo(Vals, MaxLen)
Short == SeqsUpTo(Vals, 2)
Sub(s, a, b) == SubSeq(s, a, b)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Drop(s, n) == Sub(s, n + 1, Len(s))
Take(s, n) == Sub(s, 1, Min(n, Len(s)))
\* result: outputs, consumption bounds, total
R(out, need, total) == [out |-> out, need |-> need, total |-> total]
Nd(n, f(_)) == [k \in 1..n |-> f(k)]
All(s) == Len(s)
\* positions of the items kept
RECURSIVE Keep(_, _, _, _)
Keep(s, i, P(_, _), acc) == IF i > Len(s) THEN acc ELSE Keep(s, i + 1, P, IF P(s, i) THEN Append(acc, i) ELSE acc)
AtPos(s, ps) == [k \in 1..Len(ps) |-> s[ps[k]]]
Key(x, m) == IF m = 1 THEN x ELSE x % 2              \* with a key function (parity), or without
RECURSIVE Chunks(_, _)
Chunks(s, n) == IF s = <<>> THEN <<>> ELSE <<Take(s, n)>> \o Chunks(Drop(s, n), n)
RECURSIVE Pow(_)
Pow(s) == IF s = <<>> THEN <<>> ELSE LET p == Pow(Sub(s, 1, Len(s) - 1))  x == <<s[Len(s)]>> IN p \o <<x>> \o [k \in 1..Len(p) |-> p[k] \o x]
RECURSIVE Pw2(_)
Pw2(n) == IF n = 0 THEN 1 ELSE 2 * Pw2(n - 1)
\* zipping
ZipN(a, b) == Min(Len(a), Len(b))
Zip(a, b) == [k \in 1..ZipN(a, b) |-> <<a[k], b[k]>>]
ZipL(a, b) == [k \in 1..Max(Len(a), Len(b)) |-> <<IF k <= Len(a) THEN a[k] ELSE 9, IF k <= Len(b) THEN b[k] ELSE 9>>]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Il(a, b) == LET z == Zip(a, b) IN Cat(z) \o (IF Len(a) > Len(b) THEN <<a[Len(b) + 1]>> ELSE <<>>)
First(S) == CHOOSE i \in S : \A j \in S : i <= j

F1 == {"take", "drop", "butlastn", "lastn", "nth", "pad", "splita", "splitb", "window", "chunked"}    \* one number, one input
F0 == {"tail", "butlast", "first", "second", "last", "scons", "rev", "uniqify", "uniqifykey", "uniq", "uniqkey", "partf", "partt", "allsame", "powerset",
       "flatmap", "iindex", "find", "subset", "map"}
Conv(s, n) == {i \in 1..(Len(s) - 1) : s[i] - s[i + 1] <= n /\ s[i + 1] - s[i] <= n}      \* where an input has converged
F2 == {"zipr", "rzip", "zipl", "ziprl", "rziplong", "interleave", "subset2"}
FU == {"unpack"}
FS == {"islice"}
SlB == {NN} \union ((0 - MaxN)..MaxN)
Init == \/ Group = "one" /\ \E f \in F1, n \in 0..MaxN, s \in In : (f \in {"window", "chunked"} => n >= 2) /\ c = [f |-> f, n |-> n, k |-> 0, s |-> s, t |-> <<>>]
        \/ Group = "one" /\ \E f \in F0, s \in In : c = [f |-> f, n |-> 0, k |-> 0, s |-> s, t |-> <<>>]
        \/ Group = "one" /\ \E n \in 0..2, s \in In : Conv(s, n) # {} /\ c = [f |-> "within", n |-> n, k |-> 0, s |-> s, t |-> <<>>]
        \/ Group = "two" /\ \E f \in F2, s \in In, t \in SeqsUpTo(Vals, 3) : c = [f |-> f, n |-> 0, k |-> 0, s |-> s, t |-> t]
        \/ Group = "two" /\ \E n \in 0..MaxN, k \in 0..MaxN, s \in In : c = [f |-> "unpack", n |-> n, k |-> k, s |-> s, t |-> <<>>]
        \/ Group = "slice" /\ \E a \in SlB, b \in SlB, st \in {NN, 1, 2, 3}, m \in 0..MaxLen : c = [f |-> "islice", n |-> 0, k |-> 0, s |-> [i \in 1..m |-> i], t |-> <<a, b, st>>]
        \/ Group = "slice" /\ \E k \in (0 - MaxN)..MaxN, m \in 0..MaxLen : c = [f |-> "iindexing", n |-> 0, k |-> k, s |-> [i \in 1..m |-> i], t |-> <<>>]
        \/ Group = "inn" /\ \E s \in In, x \in Vals, up \in BOOLEAN :
              /\ \A i \in 1..(Len(s) - 1) : IF up THEN s[i] <= s[i + 1] ELSE s[i] >= s[i + 1]
              /\ c = [f |-> "inn", n |-> x, k |-> IF up THEN 1 ELSE -1, s |-> s, t |-> <<>>]
Next == UNCHANGED c

Seen(s, i, m) == \A j \in 1..(i - 1) : Key(s[j], m) # Key(s[i], m)
Just(s, i, m) == i = 1 \/ Key(s[i - 1], m) # Key(s[i], m)
Filter(ps) == R(AtPos(c.s, ps), ps, Len(c.s))
One(x, need) == R(<<x>>, <<need>>, need)
Expected ==
  LET s == c.s  n == c.n  L == Len(c.s)
      same(i) == i
      pos(P(_)) == {i \in 1..L : P(i)}
  IN
  CASE c.f = "take" -> R(Take(s, n), [k \in 1..Min(n, L) |-> k], Min(n, L))
    [] c.f = "drop" -> R(Drop(s, n), [k \in 1..Max(0, L - n) |-> n + k], L)
    [] c.f = "tail" -> R(Drop(s, 1), [k \in 1..Max(0, L - 1) |-> 1 + k], L)
    [] c.f = "butlastn" -> R(Take(s, Max(0, L - n)), [k \in 1..Max(0, L - n) |-> n + k], L)
    [] c.f = "butlast" -> R(Take(s, Max(0, L - 1)), [k \in 1..Max(0, L - 1) |-> 1 + k], L)
    [] c.f = "lastn" -> R(Drop(s, Max(0, L - n)), [k \in 1..Min(n, L) |-> L], L)
    [] c.f = "nth" -> One(IF n < L THEN s[n + 1] ELSE 8, Min(n + 1, L))
    [] c.f = "first" -> One(IF L > 0 THEN s[1] ELSE 8, Min(1, L))
    [] c.f = "second" -> One(IF L > 1 THEN s[2] ELSE 8, Min(2, L))
    [] c.f = "last" -> One(IF L > 0 THEN s[L] ELSE 8, L)
    [] c.f = "pad" -> R(s \o [k \in 1..Max(0, n - L) |-> 9], [k \in 1..Max(n, L) |-> Min(k, L)], L)
    [] c.f = "scons" -> R(<<7>> \o s, [k \in 1..(L + 1) |-> k - 1], L)
    [] c.f = "rev" -> R(Rev(s), [k \in 1..L |-> L], L)
    [] c.f = "splita" -> R(Take(s, n), [k \in 1..Min(n, L) |-> L], L)
    [] c.f = "splitb" -> R(Drop(s, n), [k \in 1..Max(0, L - n) |-> L], L)
    [] c.f = "window" -> LET m == Max(0, L - n + 1) IN R([k \in 1..m |-> Sub(s, k, k + n - 1)], [k \in 1..m |-> k + n - 1], L)
    [] c.f = "chunked" -> LET ch == Chunks(s, n) IN R(ch, [k \in 1..Len(ch) |-> Min(L, k * n)], L)
    [] c.f = "uniqify" -> LET P(z, i) == Seen(z, i, 1) IN Filter(Keep(s, 1, P, <<>>))
    [] c.f = "uniqifykey" -> LET P(z, i) == Seen(z, i, 2) IN Filter(Keep(s, 1, P, <<>>))
    [] c.f = "uniq" -> LET P(z, i) == Just(z, i, 1) IN Filter(Keep(s, 1, P, <<>>))
    [] c.f = "uniqkey" -> LET P(z, i) == Just(z, i, 2) IN Filter(Keep(s, 1, P, <<>>))
    [] c.f = "partf" -> LET P(z, i) == z[i] % 2 = 0 IN Filter(Keep(s, 1, P, <<>>))
    [] c.f = "partt" -> LET P(z, i) == z[i] % 2 = 1 IN Filter(Keep(s, 1, P, <<>>))
    [] c.f = "map" -> R([k \in 1..L |-> s[k] + 1], [k \in 1..L |-> k], L)
    [] c.f = "flatmap" -> R(Cat([k \in 1..L |-> [j \in 1..s[k] |-> s[k]]]), Cat([k \in 1..L |-> [j \in 1..s[k] |-> k]]), L)
    [] c.f = "allsame" -> LET D == pos(LAMBDA i : s[i] # s[1]) IN One(IF D = {} THEN 1 ELSE 0, IF D = {} THEN L ELSE First(D))
    [] c.f = "iindex" -> LET D == pos(LAMBDA i : s[i] = 1) IN One(IF D = {} THEN -1 ELSE First(D) - 1, IF D = {} THEN L ELSE First(D))
    [] c.f = "find" -> LET D == pos(LAMBDA i : s[i] = 1) IN One(IF D = {} THEN 8 ELSE 1, IF D = {} THEN L ELSE First(D))
    [] c.f = "subset" -> One(IF \A i \in 1..L : s[i] \in {0, 2} THEN 1 ELSE 0, L)
    [] c.f = "subset2" -> One(IF \A i \in 1..L : \E j \in 1..Len(c.t) : c.t[j] = s[i] THEN 1 ELSE 0, L)
    [] c.f = "powerset" -> LET p == Pow(s) IN R(p, [k \in 1..Len(p) |-> CHOOSE m \in 1..L : Pw2(m - 1) <= k /\ k < Pw2(m)], L)
    [] c.f = "zipr" -> LET z == Zip(s, c.t) IN R(Rev(z), [k \in 1..Len(z) |-> L], L)
    [] c.f = "rzip" -> LET z == Zip(Rev(s), Rev(c.t)) IN R(z, [k \in 1..Len(z) |-> L], L)
    [] c.f = "zipl" -> LET z == ZipL(s, c.t) IN R(z, [k \in 1..Len(z) |-> Min(k, L)], L)
    [] c.f = "ziprl" -> LET z == ZipL(s, c.t) IN R(Rev(z), [k \in 1..Len(z) |-> L], L)
    [] c.f = "rziplong" -> LET z == ZipL(Rev(s), Rev(c.t)) IN R(z, [k \in 1..Len(z) |-> L], L)
    [] c.f = "interleave" -> LET z == Il(s, c.t) IN R(z, [k \in 1..Len(z) |-> (k + 1) \div 2], Min(L, Len(c.t) + 1))
    [] c.f = "within" -> LET i == First(Conv(s, n)) IN R(Take(s, i + 1), [k \in 1..(i + 1) |-> Min(k + 1, i + 1)], i + 1)
    [] c.f = "unpack" -> R(<<Take(s, n) \o [i \in 1..Max(0, n - L) |-> 9], IF L < n THEN <<>> ELSE Drop(s, c.k)>>, <<Min(L, Max(n, c.k)), L>>, L)
    [] c.f = "islice" -> LET ix == TLCEval(Indices(c.t, L))
                             neg == (c.t[1] # NN /\ c.t[1] < 0) \/ (c.t[2] # NN /\ c.t[2] < 0)
                         IN R([k \in 1..Len(ix) |-> s[ix[k] + 1]], [k \in 1..Len(ix) |-> IF neg THEN L ELSE ix[k] + 1], IF neg \/ c.t[2] = NN THEN L ELSE Min(L, Max(c.t[2], IF c.t[1] = NN THEN 0 ELSE c.t[1])))
    [] c.f = "iindexing" -> One(IF c.k < L /\ c.k >= 0 - L THEN s[(c.k % L) + 1] ELSE 8, IF c.k < 0 THEN L ELSE Min(L, c.k + 1))
    [] c.f = "inn" -> One(IF \E i \in 1..L : s[i] = n THEN 1 ELSE 0,
                          LET hit == pos(LAMBDA i : s[i] = n)
                              past == pos(LAMBDA i : (s[i] - n) * c.k > 0)
                              chg == pos(LAMBDA i : s[i] # s[1])
                          IN IF hit # {} THEN First(hit) ELSE IF past = {} \/ chg = {} THEN L ELSE Min(L, Max(First(past), First(chg)) + 1))
Emit == PrintT("@@" \o ToJson([c |-> c, r |-> Expected]))
=============================================================================
