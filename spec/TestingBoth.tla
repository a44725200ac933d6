---------------------------- MODULE TestingBoth ----------------------------
(* The specification of the test framework, in step with a second copy of it *)
(* that has the known deviation (Leaky): the same test module in both.       *)
EXTENDS Testing
VARIABLES st2, cnt2, skip2, out2
L == INSTANCE Testing WITH st <- st2, cnt <- cnt2, skip <- skip2, out <- out2, Leaky <- TRUE
BInit == Init /\ L!Init
BNext == Next /\ L!Next
BEmit == (Finished /\ Len(prog) > 2) => PrintT("@@" \o ToJson([prog |-> prog, out |-> out, cnt |-> cnt, out2 |-> out2, cnt2 |-> cnt2]))
\* the deviation shows only after a termination
SameBefore == (\A i \in 1..Len(out) : out[i].k # "TERMINATING") => (out2 = out /\ cnt2 = cnt)
=============================================================================
