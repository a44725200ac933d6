-------------------------------- MODULE Dyn --------------------------------
(* Dynamic assignment (unpythonic.dynassign).                              *)
(*                                                                         *)
(* State: one stack of dynamic scopes per thread (innermost last), and one *)
(* global scope of defaults shared by all threads.  A thread other than    *)
(* the main one starts with a COPY of the main thread's stack, taken when  *)
(* the thread first touches a dynamic variable; after that the stacks are  *)
(* independent.  `hist' is the behaviour so far with the observations that *)
(* the real code must show; it is what the conformance driver replays.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Names,      \* names of dynamic variables
          Threads,    \* thread ids (strings); contains Main
          Main,
          MaxLen,     \* length of a behaviour
          MaxDepth    \* bound on the nesting of scopes per thread

VARIABLES stk,        \* [Threads -> Seq([subset of Names -> Nat])]
          own,        \* [Threads -> Nat]: how many of the scopes the thread entered itself
          glob,       \* global defaults
          inited,     \* threads that have touched dynamic variables
          last,       \* the last step: [t, op]
          hist

vars == <<stk, own, glob, inited, last, hist>>

None == 0
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
EmptyScope == [n \in {} |-> 0]

ScopesWith(s, n) == {i \in 1..Len(s) : n \in DOMAIN s[i]}
Look(s, g, n) == IF ScopesWith(s, n) # {} THEN s[Max(ScopesWith(s, n))][n]
                 ELSE IF n \in DOMAIN g THEN g[n] ELSE None
Env(s, g) == [n \in Names |-> Look(s, g, n)]
Bound(s, g, n) == Look(s, g, n) # None

\* the stack thread t works on: a first touch copies the main thread's
Cur(t) == IF t \in inited THEN stk[t] ELSE stk[Main]

Init == /\ stk = [t \in Threads |-> <<>>]
        /\ own = [t \in Threads |-> 0]
        /\ glob = EmptyScope
        /\ inited = {Main}
        /\ last = [t |-> Main, op |-> "init"]
        /\ hist = <<>>

V == Len(hist) + 1     \* every assigned value is fresh

\* write v to n in the nearest enclosing scope that binds n
PutS(s, n, v) == IF ScopesWith(s, n) # {} THEN [s EXCEPT ![Max(ScopesWith(s, n))][n] = v] ELSE s
PutG(s, g, n, v) == IF ScopesWith(s, n) # {} THEN g ELSE [g EXCEPT ![n] = v]

Step(t, op, b, k, err, s2, o2, g2) ==
    /\ Len(hist) < MaxLen
    /\ stk' = [stk EXCEPT ![t] = s2]
    /\ own' = [own EXCEPT ![t] = o2]
    /\ glob' = g2
    /\ inited' = inited \union {t}
    /\ last' = [t |-> t, op |-> op]
    /\ hist' = Append(hist, [t |-> t, op |-> op, b |-> b, k |-> k, v |-> V, err |-> err,
                             obs |-> [u \in inited' |-> Env(stk'[u], g2)]])

\* enter `with dyn.let(b...)'; with no bindings it is a scope without effect
Let(t) == \E b \in SUBSET Names :
    /\ Len(Cur(t)) < MaxDepth
    /\ Step(t, "let", b, 0, FALSE, Append(Cur(t), [n \in b |-> V]), own[t] + 1, glob)

\* leave the innermost block entered by this thread, normally
Exit(t) == /\ own[t] > 0
           /\ Step(t, "exit", {}, 0, FALSE, SubSeq(Cur(t), 1, Len(Cur(t)) - 1), own[t] - 1, glob)

\* an exception unwinds k blocks before it is caught
Raise(t) == \E k \in 1..own[t] :
            Step(t, "raise", {}, k, FALSE, SubSeq(Cur(t), 1, Len(Cur(t)) - k), own[t] - k, glob)

Set(t) == \E n \in Names :
    IF Bound(Cur(t), glob, n)
    THEN Step(t, "set", {n}, 0, FALSE, PutS(Cur(t), n, V), own[t], PutG(Cur(t), glob, n, V))
    ELSE Step(t, "set", {n}, 0, TRUE, Cur(t), own[t], glob)

\* mass update: all or nothing
Update(t) == \E b \in (SUBSET Names) \ {{}} :
    IF \A n \in b : Bound(Cur(t), glob, n)
    THEN Step(t, "update", b, 0, FALSE,
              [i \in 1..Len(Cur(t)) |->
                 [n \in DOMAIN Cur(t)[i] |->
                    IF n \in b /\ i = Max(ScopesWith(Cur(t), n)) THEN V ELSE Cur(t)[i][n]]],
              own[t],
              [n \in DOMAIN glob |-> IF n \in b /\ ScopesWith(Cur(t), n) = {} THEN V ELSE glob[n]])
    ELSE Step(t, "update", b, 0, TRUE, Cur(t), own[t], glob)

\* a global default
MakeDynvar(t) == \E n \in Names :
    Step(t, "mkdynvar", {n}, 0, FALSE, Cur(t), own[t],
         [m \in (DOMAIN glob) \union {n} |-> IF m = n THEN V ELSE glob[m]])

\* only look (for a new thread this is the copy)
Touch(t) == /\ t \notin inited
            /\ Step(t, "touch", {}, 0, FALSE, Cur(t), own[t], glob)

Next == \E t \in Threads : Let(t) \/ Exit(t) \/ Raise(t) \/ Set(t) \/ Update(t) \/ MakeDynvar(t) \/ Touch(t)

Emit == Len(hist) # MaxLen \/ PrintT("@@" \o ToJson(hist))

(* ------------------------------ properties ----------------------------- *)
TypeOK == /\ \A t \in Threads : own[t] <= Len(stk[t])
          /\ DOMAIN glob \subseteq Names

\* what a thread does to its own scopes is invisible to every other thread
Isolation == [][\A u \in Threads :
                  (u \in inited /\ u # last'.t) => stk'[u] = stk[u]]_vars

\* a binding is visible exactly during the extent of its block: leaving a block
\* exposes precisely what the enclosing scopes hold
Extent == [][\A t \in Threads :
               (last'.t = t /\ last'.op \in {"exit", "raise"} /\ t \in inited) =>
                 /\ Len(stk'[t]) < Len(stk[t])
                 /\ stk'[t] = SubSeq(stk[t], 1, Len(stk'[t]))]_vars

\* entering a block shadows, and never alters an enclosing scope or a default
Shadow == [][\A t \in Threads :
               (last'.t = t /\ last'.op = "let" /\ t \in inited) =>
                 /\ SubSeq(stk'[t], 1, Len(stk[t])) = stk[t]
                 /\ glob' = glob]_vars

\* a new thread sees what the main thread saw
Inherit == [][\A t \in Threads :
                (t \notin inited /\ t \in inited' /\ last'.op = "touch") => stk'[t] = stk[Main]]_vars

\* a failed mutation changes nothing
AllOrNothing == [][(hist' # hist /\ hist'[Len(hist')].err) =>
                     (glob' = glob /\ \A t \in Threads : (t \in inited => stk'[t] = stk[t]))]_vars
=============================================================================
