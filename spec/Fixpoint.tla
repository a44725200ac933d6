------------------------------ MODULE Fixpoint ------------------------------
(* fixpoint(f, x0, tol): iterate until two successive values are within tol. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS M, Tols
VARIABLES f, tol, tr
D == 0..M
Init == f \in [D -> D] /\ tol \in Tols /\ \E x \in D : tr = <<x>>
Abs(x) == IF x < 0 THEN -x ELSE x
Done == Len(tr) > 1 /\ Abs(tr[Len(tr)] - tr[Len(tr) - 1]) <= tol
Next == ~Done /\ Len(tr) <= M + 3 /\ tr' = Append(tr, f[tr[Len(tr)]]) /\ UNCHANGED <<f, tol>>
\* with tolerance zero, the result is a fixed point, and was found by iterating f
Fixed == Done /\ tol = 0 => f[tr[Len(tr)]] = tr[Len(tr)]
Emit == Done => PrintT("@@" \o ToJson([f |-> [i \in 1..(M + 1) |-> f[i - 1]], tol |-> tol, tr |-> tr]))
=============================================================================
