--------------------------------- MODULE Ec ---------------------------------
(* Escape continuations (unpythonic.ec): catch/throw and call_ec.            *)
(* State: the stack of active catch points, call_ec blocks and Python try    *)
(* blocks (outermost first), and which ec objects exist.  A throw or an ec   *)
(* goes to the innermost active catch point that accepts it; everything      *)
(* inside is unwound, everything outside is untouched.  An ec is valid       *)
(* exactly during the extent of its own call_ec, and reaches only that.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Tags, MaxLen, MaxDepth
VARIABLES fr, ecs, hist
vars == <<fr, ecs, hist>>

Max(S) == CHOOSE x \in S : \A y \in S : x >= y
N == Len(hist) + 1
Top(f) == f[Len(f)]
Pop(f) == SubSeq(f, 1, Len(f) - 1)
F(k) == [k |-> k, id |-> N, all |-> FALSE, tags |-> {}, cu |-> FALSE]

\* the documented table: does catch point x accept a throw with tag g ("" = no tag)?
Accepts(x, g, allow) ==
  /\ x.k = "catch"
  /\ \/ x.all /\ allow
     \/ x.cu /\ g = ""
     \/ ~x.all /\ g # "" /\ g \in x.tags

Do(op, arg, f, e, ret) ==
  /\ fr' = f /\ ecs' = e
  /\ hist' = Append(hist, [op |-> op, arg |-> arg, ret |-> ret,
                           at |-> IF f = <<>> THEN 0 ELSE Top(f).id, depth |-> Len(f)])

R(k, id, v) == [k |-> k, id |-> id, v |-> v]

Catch == /\ Len(fr) < MaxDepth
         /\ \E all \in BOOLEAN, cu \in BOOLEAN :
            \E ts \in (IF all THEN {{}} ELSE (SUBSET Tags) \ {{}}) :
              Do("catch", [all |-> all, tags |-> ts, cu |-> cu],
                 Append(fr, [F("catch") EXCEPT !.all = all, !.tags = ts, !.cu = cu]), ecs, R("in", N, 0))
CallEc == /\ Len(fr) < MaxDepth
          /\ Do("call_ec", 0, Append(fr, F("ec")), ecs \union {N}, R("in", N, 0))
Try == /\ Len(fr) < MaxDepth
       /\ Do("try", 0, Append(fr, F("try")), ecs, R("in", N, 0))
Return == /\ fr # <<>>
          /\ Do("return", 0, Pop(fr), ecs, R("value", Top(fr).id, N))
Throw == \E g \in Tags \union {""}, allow \in BOOLEAN :
   LET ok == {i \in 1..Len(fr) : Accepts(fr[i], g, allow)}
   IN IF ok = {}
      THEN Do("throw", [tag |-> g, allow |-> allow], <<>>, ecs, R("escaped", 0, N))
      ELSE Do("throw", [tag |-> g, allow |-> allow], SubSeq(fr, 1, Max(ok) - 1), ecs, R("value", fr[Max(ok)].id, N))
Invoke == \E e \in ecs :
   LET ok == {i \in 1..Len(fr) : fr[i].id = e}
   IN IF ok = {} THEN Do("invoke", e, fr, ecs, R("dead", e, 0))
      ELSE Do("invoke", e, SubSeq(fr, 1, Max(ok) - 1), ecs, R("value", e, N))
Raise == LET ok == {i \in 1..Len(fr) : fr[i].k = "try"}
         IN IF ok = {} THEN Do("raise", 0, <<>>, ecs, R("exc", 0, N))
            ELSE Do("raise", 0, SubSeq(fr, 1, Max(ok) - 1), ecs, R("exc", fr[Max(ok)].id, N))

Init == fr = <<>> /\ ecs = {} /\ hist = <<>>
Next == Len(hist) < MaxLen /\ (Catch \/ CallEc \/ Try \/ Return \/ Throw \/ Invoke \/ Raise)
Emit == Len(hist) # MaxLen \/ PrintT("@@" \o ToJson(hist))

Last == hist'[Len(hist')]
\* an ec never ends up anywhere but right after its own call_ec
OneToOne == [][(Last.op = "invoke" /\ Last.ret.k = "value") =>
                 /\ fr[Len(fr') + 1].id = Last.arg
                 /\ fr' = SubSeq(fr, 1, Len(fr'))]_vars
\* an ec whose call_ec has ended fails, and transfers no control
DeadEc == [][(Last.op = "invoke" /\ \A i \in 1..Len(fr) : fr[i].id # Last.arg) => (Last.ret.k = "dead" /\ fr' = fr)]_vars
\* a catch point with neither a matching tag nor a catch-all reading never intercepts
NoStrayCatch == [][(Last.op = "throw" /\ Last.ret.k = "value") =>
                     Accepts(fr[Len(fr') + 1], Last.arg.tag, Last.arg.allow)]_vars
=============================================================================
