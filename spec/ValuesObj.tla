----------------------------- MODULE ValuesObj -----------------------------
(* Values: positional and named return values. All small objects, and pairs. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxRets
VARIABLE pair
V == 0..1
Rets == UNION {[1..n -> V] : n \in 0..MaxRets}
Names == {"a", "rets"}
Kws == UNION {[S -> V] : S \in SUBSET Names}
Objs == {[r |-> r, k |-> k] : r \in Rets, k \in Kws}
Init == pair \in Objs \X Objs
Next == UNCHANGED pair
X == pair[1]
Idx == -(MaxRets + 1)..MaxRets
At(i) == IF i >= 0 THEN (IF i < Len(X.r) THEN <<X.r[i + 1]>> ELSE <<>>) ELSE (IF -i <= Len(X.r) THEN <<X.r[Len(X.r) + i + 1]>> ELSE <<>>)
Named(n) == IF n \in DOMAIN X.k THEN <<X.k[n]>> ELSE <<>>
Equal == pair[1].r = pair[2].r /\ pair[1].k = pair[2].k
\* two objects are equal exactly if nothing that can be read from them differs
Extensional == Equal <=> (Len(pair[1].r) = Len(pair[2].r) /\ (\A i \in 1..Len(pair[1].r) : pair[1].r[i] = pair[2].r[i])
                          /\ \A n \in Names : (n \in DOMAIN pair[1].k <=> n \in DOMAIN pair[2].k) /\ (n \in DOMAIN pair[1].k /\ n \in DOMAIN pair[2].k => pair[1].k[n] = pair[2].k[n]))
Kw(k) == {<<n, k[n]>> : n \in DOMAIN k}
Emit == PrintT("@@" \o ToJson([x |-> X.r, xk |-> Kw(X.k), y |-> pair[2].r, yk |-> Kw(pair[2].k), eq |-> Equal,
            at |-> {<<i, At(i)>> : i \in Idx}, named |-> {<<n, Named(n)>> : n \in Names}, iter |-> DOMAIN X.k = {}]))
=============================================================================
