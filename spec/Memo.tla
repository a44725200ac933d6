-------------------------------- MODULE Memo --------------------------------
(* Memoized functions (unpythonic.fun.memoize).                              *)
(* A key stands for one set of parameter bindings; it can be passed in       *)
(* several styles (positionally, by name, by default) - the style must not   *)
(* matter. Computing a key may call the same memoized function for other     *)
(* keys (Dep). The value, or the exception, of a key is computed at most     *)
(* once, and every call for the key delivers that same object.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Fns,       \* independent memoized functions
          Keys, Styles, MaxLen
VARIABLES evals,     \* [<<fn, key>> -> number of computations]
          hist, l, tid, begun, ended
vars == <<evals, hist, l, tid, begun, ended>>

\* keys: 1 a value; 2 raises; 3 needs 1; 4 needs 1 then 2 (so raises what 2 raised); 5 a value; 6 needs 3 and 5, then raises itself
Dep(k) == CASE k = 3 -> <<1>> [] k = 4 -> <<1, 2>> [] k = 6 -> <<3, 5>> [] OTHER -> <<>>
\* the key whose own object is delivered: of an exception if 2 or 6
RECURSIVE Outcome(_)
Outcome(k) == IF k = 4 THEN Outcome(2) ELSE k

RECURSIVE Run(_, _, _)
\* the evaluation counts of one function after a call for k
Run(ev, k, i) ==
  IF i = 0
  THEN IF ev[k] > 0 THEN ev ELSE Run([ev EXCEPT ![k] = 1], k, 1)
  ELSE IF i > Len(Dep(k)) THEN ev ELSE Run(Run(ev, Dep(k)[i], 0), k, i + 1)

Init == /\ evals = [f \in Fns |-> [k \in 1..6 |-> 0]] /\ hist = <<>> /\ l = 0 /\ tid = 0 /\ begun = {} /\ ended = {}
Call(f, k, s) ==
  /\ evals' = [evals EXCEPT ![f] = Run(@, k, 0)]
  /\ hist' = Append(hist, [f |-> f, k |-> k, s |-> s, r |-> Outcome(k), evals |-> evals'[f]])
Next == /\ Len(hist) < MaxLen /\ UNCHANGED <<l, tid, begun, ended>>
        /\ \E f \in Fns, k \in Keys, s \in Styles : Call(f, k, s)
Emit == Len(hist) # MaxLen \/ PrintT("@@" \o ToJson(hist))
AtMostOnce == \A f \in Fns, k \in 1..6 : evals[f][k] <= 1

(* ---------------------- recorded concurrent traces --------------------- *)
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid][l + 1]
TraceInit == /\ evals = <<>> /\ hist = <<>> /\ l = 0 /\ begun = {} /\ ended = {} /\ tid \in 1..Len(Traces)
TBegin == /\ Ev.e = "begin" /\ Ev.k \notin begun /\ begun' = begun \union {Ev.k} /\ UNCHANGED ended
TEnd == /\ Ev.e = "end" /\ Ev.k \in begun \ ended /\ ended' = ended \union {Ev.k} /\ UNCHANGED begun
TRet == /\ Ev.e = "ret" /\ Ev.k \in ended /\ Ev.r = Outcome(Ev.k) /\ UNCHANGED <<begun, ended>>
TraceNext == /\ l < Len(Traces[tid]) /\ (TBegin \/ TEnd \/ TRet)
             /\ l' = l + 1 /\ UNCHANGED <<hist, tid, evals>>
TraceEmit == PrintT("@@" \o ToJson([t |-> tid, n |-> l]))
=============================================================================
