----------------------------- MODULE Partition -----------------------------
(* Ordered partitions (compositions) of n into allowed components:           *)
(* partition_int, partition_int_triangular, partition_int_custom.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ns, Kinds, MaxSum
VARIABLE case

RECURSIVE Comps(_, _)
Comps(n, C) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o s : s \in TLCEval(Comps(n - k, C))} : k \in {x \in C : x <= n}}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
\* how many there are, by another recurrence: by the number of parts
RECURSIVE Ways(_, _, _)
Ways(n, C, parts) == IF parts = 0 THEN (IF n = 0 THEN 1 ELSE 0)
                     ELSE LET w[S \in SUBSET C] == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN (IF k <= n THEN Ways(n - k, C, parts - 1) ELSE 0) + w[S \ {k}] IN w[C]
RECURSIVE Total(_, _, _)
Total(n, C, p) == IF p > n THEN 0 ELSE Ways(n, C, p) + Total(n, C, p + 1)

Tri == {1, 3, 6, 10, 15, 21, 28}
Bad(n, lo, up) == n < 1 \/ lo < 1 \/ up < 1 \/ lo > n \/ up > n \/ lo > up
Allowed(c) == IF c.kind = "custom" THEN c.comps ELSE {x \in 1..c.n : c.lo <= x /\ x <= c.up /\ (c.kind = "tri" => x \in Tri)}
Err(c) == IF c.kind = "custom" THEN c.n < 1 \/ \E x \in c.comps : x < 1 \/ x > c.n ELSE Bad(c.n, c.lo, c.up)

Init == \E n \in Ns : \E k \in Kinds :
          IF k = "custom" THEN \E C \in SUBSET (0..(IF n < 0 THEN 1 ELSE n + 1)) : Cardinality(C) <= 6 /\ case = [kind |-> k, n |-> n, lo |-> 0, up |-> 0, comps |-> C]
          ELSE \E lo \in 0..(n + 1) : \E up \in 0..(n + 1) : (n - lo) <= MaxSum /\ case = [kind |-> k, n |-> n, lo |-> lo, up |-> up, comps |-> {}]
Next == UNCHANGED case
Result == IF Err(case) THEN {} ELSE TLCEval(Comps(case.n, Allowed(case)))
Sound == Err(case) \/ \A s \in Result : Sum(s) = case.n /\ \A i \in 1..Len(s) : s[i] \in Allowed(case)
Complete == Err(case) \/ case.n > 6 \/ Cardinality(Result) = Total(case.n, Allowed(case), 1)
Emit == PrintT("@@" \o ToJson([case |-> case, err |-> Err(case), out |-> Result]))
=============================================================================
