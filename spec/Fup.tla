-------------------------------- MODULE Fup --------------------------------
(* Functional update: fupdate, fup, ShadowedSequence, in_slice,              *)
(* index_in_slice; and frozendict. A case is one state.                      *)
(* Where an update specification is a slice, the slice selects elements as   *)
(* Python slices do, and the k-th selected element becomes the k-th item of  *)
(* the replacement; the result is a new object, the target is unchanged.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Slices
CONSTANTS MaxN, Steps, Pairs, MaxMaps
VARIABLES c

Bounds(n) == {NN} \union ((0 - n)..n)
SlicesOf(n) == {<<a, b, s>> : a \in Bounds(n), b \in Bounds(n), s \in Steps}
Kinds == {"exact", "long", "short", "iter", "inf", "memo"}
\* index specifications are <<k>>, slices are triples
Specs(n) == {<<k>> : k \in (0 - n - 1)..n} \union SlicesOf(n)

TargetOf(n) == [i \in 1..n |-> 10 + i]
Need(s, n) == Len(Indices(s, n))
\* the replacement items available: 100*round + 1, 2, ...
Avail(kind, need) == CASE kind = "exact" -> need [] kind = "long" -> need + 2 [] kind = "short" -> need - 1
                       [] kind = "iter" -> need [] kind \in {"inf", "memo"} -> need + 50
Upd(t, sp, kind, rnd) ==
  LET n == Len(t) IN
  IF Len(sp) = 1
  THEN IF sp[1] < 0 - n \/ sp[1] >= n THEN [e |-> "IndexError", t |-> t] ELSE [e |-> "", t |-> TLCEval([t EXCEPT ![(sp[1] % n) + 1] = 100 * rnd])]
  ELSE LET ix == TLCEval(Indices(sp, n))
           need == Len(ix)
       IN IF Avail(kind, need) < need THEN [e |-> "IndexError", t |-> t]
          ELSE [e |-> "", t |-> TLCEval([p \in 1..n |-> IF \E i \in 1..need : ix[i] = p - 1 THEN 100 * rnd + (CHOOSE i \in 1..need : ix[i] = p - 1) ELSE t[p]])]
Fwd(sp) == Len(sp) = 1 \/ sp[3] = NN \/ sp[3] > 0
OkKind(n, sp, kind) == IF Len(sp) = 1 THEN kind = "exact"
                       ELSE /\ kind \in {"iter", "inf"} => Fwd(sp)
                            /\ kind = "short" => Need(sp, n) > 0
\* mappings: each maps keys to values; later ones win
Maps == {<<>>} \union {<<<<"a", x>>>> : x \in {1, 2}} \union {<<<<"a", x>>, <<"b", y>>>> : x \in {1}, y \in {1, 3}} \union {<<<<"b", 3>>, <<"a", 1>>>>}
Put(m, k, v) == IF \E i \in 1..Len(m) : m[i][1] = k THEN [i \in 1..Len(m) |-> IF m[i][1] = k THEN <<k, v>> ELSE m[i]] ELSE Append(m, <<k, v>>)
RECURSIVE Merge(_, _, _)
Merge(m, o, i) == IF i > Len(o) THEN m ELSE Merge(Put(m, o[i][1], o[i][2]), o, i + 1)
RECURSIVE MergeAll(_, _, _)
MergeAll(m, ms, i) == IF i > Len(ms) THEN m ELSE MergeAll(Merge(m, ms[i], 1), ms, i + 1)
SameMap(m, o) == {m[i] : i \in 1..Len(m)} = {o[i] : i \in 1..Len(o)}

Init == \/ \E n \in 1..MaxN : \E s \in Specs(n) : c = [f |-> "in", n |-> n, s |-> s]
        \/ \E n \in 0..MaxN : \E s \in Specs(n), k \in Kinds : (n > 0 \/ Len(s) > 1) /\ OkKind(n, s, k) /\ c = [f |-> "up", n |-> n, ss |-> <<s>>, k |-> <<k>>]
        \/ Pairs /\ \E s \in Specs(3) \ {<<3>>, <<-4>>}, t \in Specs(3), k \in {"exact", "long"} : OkKind(3, s, k) /\ OkKind(3, t, IF Len(t) = 1 THEN "exact" ELSE "inf")
                      /\ c = [f |-> "up", n |-> 3, ss |-> <<s, t>>, k |-> <<k, IF Len(t) = 1 THEN "exact" ELSE "inf">>]
        \/ \E m1 \in Maps, m2 \in Maps, m3 \in Maps : c = [f |-> "map", ms |-> <<m1, m2, m3>>]
Next == UNCHANGED c
\* position of index i in a slice, or -1
PosIn(s, n, i) == IF Len(s) = 1 THEN (IF (s[1] % n) = i % n THEN 0 ELSE -1)
                  ELSE LET ix == TLCEval(Indices(s, n)) IN IF \E p \in 1..Len(ix) : ix[p] = i % n THEN (CHOOSE p \in 1..Len(ix) : ix[p] = i % n) - 1 ELSE -1
RECURSIVE UpAll(_, _, _, _)
UpAll(t, ss, ks, i) == IF i > Len(ss) THEN [e |-> "", t |-> t] ELSE LET r == Upd(t, ss[i], ks[i], i) IN IF r.e # "" THEN r ELSE UpAll(r.t, ss, ks, i + 1)
Expected ==
  CASE c.f = "in" -> [i \in 1..(2 * c.n) |-> IF Len(c.s) = 1 /\ (c.s[1] < 0 - c.n \/ c.s[1] >= c.n) THEN -2 ELSE PosIn(c.s, c.n, i - 1 - c.n)]
    [] c.f = "up" -> UpAll(TargetOf(c.n), c.ss, c.k, 1)
    [] c.f = "map" -> [m |-> MergeAll(<<>>, c.ms, 1), up |-> Merge(c.ms[1], c.ms[2], 1), eq |-> SameMap(c.ms[1], c.ms[2])]
Emit == PrintT("@@" \o ToJson([c |-> c, r |-> Expected]))
=============================================================================
