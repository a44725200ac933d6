------------------------------- MODULE DynRace ------------------------------
(* Concurrent use of dynamic variables. Every operation takes effect at one  *)
(* instant between its call and its return; a new thread copies the main     *)
(* thread's bindings at one instant during its first operation, so it never  *)
(* sees half of a mass update, and nothing of the main thread after that.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES st, pend, l, tid
vars == <<st, pend, l, tid>>
\* st: thread -> stack of scopes, innermost last; a thread without an entry has not copied yet. A scope: name -> value, as a function
Names == {"a", "b"}
Merge(stack) == [n \in Names |-> LET is == {i \in 1..Len(stack) : n \in DOMAIN stack[i]} IN stack[CHOOSE i \in is : \A j \in is : j <= i][n]]
Near(stack, n) == CHOOSE i \in {j \in 1..Len(stack) : n \in DOMAIN stack[j]} : \A j \in 1..Len(stack) : n \in DOMAIN stack[j] => j <= i
RECURSIVE Assign(_, _, _)
Assign(stack, ns, b) == IF ns = {} THEN stack ELSE LET n == CHOOSE q \in ns : TRUE IN Assign([stack EXCEPT ![Near(stack, n)] = [@ EXCEPT ![n] = b[n]]], ns \ {n}, b)
Apply(stack, op) == CASE op.op = "let" -> Append(stack, op.b)
                      [] op.op = "exit" -> SubSeq(stack, 1, Len(stack) - 1)
                      [] op.op \in {"update", "set"} -> Assign(stack, DOMAIN op.b, op.b)
                      [] op.op = "look" -> stack
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid][l + 1]
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 0
             /\ st = [t \in {"m"} |-> <<[n \in Names |-> 0]>>] /\ pend = [t \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
Call == Ev.e = "call" /\ pend' = Put(pend, Ev.t, [op |-> Ev.o, done |-> FALSE]) /\ st' = st /\ l' = l + 1
Take == \E t \in DOMAIN pend : /\ ~pend[t].done
                               /\ st' = Put(st, t, Apply(IF t \in DOMAIN st THEN st[t] ELSE st["m"], pend[t].op))
                               /\ pend' = [pend EXCEPT ![t].done = TRUE] /\ l' = l
Ret == /\ Ev.e = "ret" /\ pend[Ev.t].done
       /\ pend[Ev.t].op.op = "look" => Merge(st[Ev.t]) = Ev.v
       /\ pend' = [t \in DOMAIN pend \ {Ev.t} |-> pend[t]] /\ st' = st /\ l' = l + 1
TraceNext == l < Len(Traces[tid]) /\ tid' = tid /\ (Call \/ Take \/ Ret)
TraceEmit == PrintT("@@" \o ToJson([t |-> tid, n |-> l]))
=============================================================================
