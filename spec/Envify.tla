------------------------------- MODULE Envify -------------------------------
(* Parameters as assignable variables (with envify), and lambdas with names, *)
(* with several expressions, and with placeholders (namedlambda, multilambda,*)
(* quicklambda, fn). In an envify block `n << e` or `n := e` assigns to the  *)
(* parameter n of the nearest function or lambda around, from any expression *)
(* position. Everything else means what it means in Python: an inner scope   *)
(* that binds the name (parameter, assignment, for, comprehension, class     *)
(* body, global) hides it; default values belong to the scope outside; each  *)
(* call has its own variables, and closures keep them.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSize, MaxBody, Forms
VARIABLES st, done
vars == <<st, done>>
Names == {"x", "y"}
Nd(t, n, k) == [t |-> t, n |-> n, k |-> k]
Stmts == {"asg", "expr", "for", "cls", "def", "aug"}
ExprOps == {"set", "thunk", "thunk2", "call", "comp", "lam", "lamdef", "pair", "quick", "dict"} \cap Forms
Ar == [t \in {"set", "thunk", "thunk2", "call", "comp", "lam", "lamdef", "pair", "quick", "dict", "asg", "expr", "for", "cls", "aug"} |->
       IF t \in {"set", "thunk", "call", "dict", "asg", "expr", "for", "cls", "aug"} THEN 1 ELSE 2]
NameSets(t) == IF t = "dict" THEN {<<"x">>, <<"1">>} ELSE IF t \in {"set", "comp", "lam", "lamdef", "asg", "for", "cls", "aug"} THEN {<<n>> : n \in Names} ELSE {<<>>}
Leaf == {Nd("ref", <<n>>, <<>>) : n \in Names} \union {Nd("c", <<v>>, <<>>) : v \in {"1", "None"}}
RECURSIVE Size(_)
Size(e) == IF e.k = <<>> THEN 1 ELSE 1 + (LET RECURSIVE Sum(_)
                                              Sum(q) == IF q = <<>> THEN 0 ELSE Size(Head(q)) + Sum(Tail(q)) IN Sum(e.k))
IsStmt(e) == e.t \in Stmts
\* def: n = <<parameter, declaration, how it is called>>; with a parameter, k[1] is the default value or the argument
DefNames == {<<p, d, c>> : p \in {"", "x", "y"}, d \in {"", "nonlocal x", "nonlocal y", "global x", "global y"}, c \in {"default", "name", "position"}}
Body(e) == IF e.n[1] = "" THEN e.k ELSE Tail(e.k)
DeclOf(d) == CASE d \in {"nonlocal x", "global x"} -> "x" [] d \in {"nonlocal y", "global y"} -> "y" [] OTHER -> ""
IsGlobal(d) == d \in {"global x", "global y"}
Assigned(b) == {b[i].n[1] : i \in {j \in 1..Len(b) : b[j].t \in {"asg", "for", "aug"}}}
Own(e) == (Assigned(Body(e)) \union (IF e.n[1] = "" THEN {} ELSE {e.n[1]})) \ {DeclOf(e.n[2])}
\* which names are parameters ("e"), other Python variables ("p"), global ("g")
RECURSIVE WF(_, _)
\* the decorator of a lambda is not a place for names (see DESIGN.md)
RECURSIVE Plain(_)
Plain(e) == IF e.t = "call" THEN Plain(e.k[1]) ELSE e.t # "quick"
WF(e, sc) ==
  CASE e.t \in {"ref", "c"} -> TRUE
    [] e.t = "set" -> Plain(e.k[1]) /\ sc[e.n[1]] = "e" /\ WF(e.k[1], sc)
    [] e.t \in {"asg", "for", "expr"} -> Plain(e.k[1]) /\ WF(e.k[1], sc)
    [] e.t = "aug" -> e.k[1].t = "c" /\ e.k[1].n[1] = "1"
    [] e.t = "dict" -> Plain(e.k[1]) /\ WF(e.k[1], sc)
    [] e.t \in {"thunk", "call"} -> WF(e.k[1], sc)
    [] e.t \in {"thunk2", "pair", "quick"} -> WF(e.k[1], sc) /\ WF(e.k[2], sc)
    [] e.t \in {"lam", "lamdef"} -> Plain(e.k[1]) /\ WF(e.k[1], sc) /\ WF(e.k[2], [sc EXCEPT ![e.n[1]] = "e"])
    [] e.t = "comp" -> WF(e.k[1], sc) /\ WF(e.k[2], [sc EXCEPT ![e.n[1]] = "p"])
    [] e.t = "cls" -> e.k[1].t = "c" \/ (e.k[1].t = "ref" /\ e.k[1].n # e.n)
    [] e.t = "def" -> LET d == DeclOf(e.n[2])  b == Body(e)
                          sc2 == [n \in Names |-> IF n = e.n[1] THEN "e" ELSE IF n = d THEN (IF IsGlobal(e.n[2]) THEN "g" ELSE sc[n]) ELSE IF n \in Own(e) THEN "p" ELSE sc[n]] IN
                      /\ e.n[1] # d \/ d = ""
                      /\ d # "" /\ ~IsGlobal(e.n[2]) => sc[d] # "g"
                      /\ e.n[1] # "" => Plain(e.k[1]) /\ WF(e.k[1], sc)
                      /\ \A i \in 1..Len(b) : IsStmt(b[i]) /\ WF(b[i], sc2)
Init == st = <<>> /\ done = FALSE
Build == /\ ~done
         /\ \/ Len(st) < 7 /\ \E l \in Leaf : st' = Append(st, l)
            \/ \E t \in (ExprOps \union (Stmts \ {"def"})) : LET a == Ar[t] IN
                 /\ Len(st) >= a /\ \A i \in Len(st) - a + 1..Len(st) : ~IsStmt(st[i])
                 /\ \E n \in NameSets(t) : st' = Append(SubSeq(st, 1, Len(st) - a), Nd(t, n, SubSeq(st, Len(st) - a + 1, Len(st))))
            \/ \E nb \in 1..MaxBody, dn \in DefNames : LET a == IF dn[1] = "" THEN nb ELSE nb + 1 IN
                 /\ Len(st) >= a /\ \A i \in Len(st) - nb + 1..Len(st) : IsStmt(st[i])
                 /\ dn[1] # "" => ~IsStmt(st[Len(st) - nb])
                 /\ dn[1] = "" => dn[3] = "default"
                 /\ st' = Append(SubSeq(st, 1, Len(st) - a), Nd("def", dn, SubSeq(st, Len(st) - a + 1, Len(st))))
         /\ Size(st'[Len(st')]) <= MaxSize /\ done' = FALSE
Prog == Nd("def", <<"xy", "", "position">>, st)
Finish == /\ ~done /\ Len(st) >= 2 /\ \A i \in 1..Len(st) : IsStmt(st[i])
          /\ \A i \in 1..Len(st) : WF(st[i], [n \in Names |-> "e"])
          /\ \E i \in 1..Len(st) : Size(st[i]) >= 4
          /\ done' = TRUE /\ UNCHANGED st
Next == Build \/ Finish

\* ------------------------------------------------------------- meaning
V(s) == [s |-> s, c |-> <<>>]
Absent == V("?")
Empty == [n \in Names |-> Absent]
R(v, S) == [v |-> v, S |-> S]
Fail(S, e) == R(V("?"), [S EXCEPT !.err = e])
New(S, f) == [S EXCEPT !.heap = Append(@, f)]
IsFn(v) == v.c # <<>>
\* a lambda written directly as the value of an assignment, possibly decorated (a chain of one-argument calls), gets its name
RECURSIVE Deco(_)
Deco(e) == e.t \in {"thunk", "thunk2"} \/ (e.t = "call" /\ Deco(e.k[1]))
Name(e, v, n) == IF IsFn(v) /\ Deco(e) THEN [v EXCEPT !.s = "fn:" \o n] ELSE v
RECURSIVE Ev(_, _, _)
RECURSIVE Ex(_, _, _)
RECURSIVE Run(_, _, _, _)
Ev(e, env, S) ==
  IF S.err # "" THEN R(V("?"), S)
  ELSE IF Len(S.log) > 40 THEN Fail(S, "too long")
  ELSE CASE e.t = "c" -> R(V(e.n[1]), S)
    [] e.t = "ref" -> LET v == S.heap[env[e.n[1]]][e.n[1]] IN
                      IF v.s = "?" THEN Fail(S, "NameError") ELSE R(v, [S EXCEPT !.log = Append(@, <<e.n[1], v.s>>)])
    [] e.t = "set" -> LET r == TLCEval(Ev(e.k[1], env, S)) IN
                      LET v == Name(e.k[1], r.v, e.n[1]) IN IF r.S.err # "" THEN r ELSE R(v, [r.S EXCEPT !.heap[env[e.n[1]]][e.n[1]] = v])
    [] e.t \in {"thunk", "thunk2"} -> R([s |-> "fn:", c |-> <<e, env>>], S)
    [] e.t = "call" -> LET r == TLCEval(Ev(e.k[1], env, S)) IN
                       IF r.S.err # "" \/ ~IsFn(r.v) THEN r
                       ELSE IF Len(r.S.heap) > 30 \/ r.S.fuel = 0 THEN Fail(r.S, "too long")
                       ELSE LET f == r.v.c[1]  S1 == [r.S EXCEPT !.fuel = @ - 1]
                                a == TLCEval(Ev(f.k[1], r.v.c[2], S1)) IN
                            IF f.t = "thunk" \/ a.S.err # "" THEN a ELSE Ev(f.k[2], r.v.c[2], a.S)
    [] e.t = "dict" -> LET r == TLCEval(Ev(e.k[1], env, S)) IN      \* the value at a literal key; a string key names a lambda
                       IF r.S.err # "" THEN r ELSE R(IF e.n[1] = "1" THEN r.v ELSE Name(e.k[1], r.v, e.n[1]), r.S)
    [] e.t = "pair" -> LET a == TLCEval(Ev(e.k[1], env, S))  b == TLCEval(Ev(e.k[2], env, a.S)) IN
                       IF b.S.err # "" THEN b ELSE R(V("(" \o a.v.s \o ", " \o b.v.s \o ")"), b.S)
    [] e.t = "quick" -> \* fn[show(_, e2)](e1)
                       LET a == TLCEval(Ev(e.k[1], env, S))  b == TLCEval(Ev(e.k[2], env, a.S)) IN
                       IF b.S.err # "" THEN b ELSE R(V("(" \o a.v.s \o ", " \o b.v.s \o ")"), b.S)
    [] e.t \in {"lam", "lamdef", "comp"} ->      \* lam: the argument is passed by name
                       LET r == TLCEval(Ev(e.k[1], env, S)) IN
                       IF r.S.err # "" THEN r
                       ELSE Ev(e.k[2], [env EXCEPT ![e.n[1]] = Len(r.S.heap) + 1], New(r.S, [Empty EXCEPT ![e.n[1]] = IF e.t = "lam" THEN Name(e.k[1], r.v, e.n[1]) ELSE r.v]))
\* a call of a function defined by def, with its variables in a new frame
CallDef(e, env, v, S) ==
  LET id == Len(S.heap) + 1
      env2 == [n \in Names |-> IF n \in Own(e) THEN id ELSE IF n = DeclOf(e.n[2]) /\ IsGlobal(e.n[2]) THEN 1 ELSE env[n]]
  IN IF Len(S.heap) > 30 \/ S.fuel = 0 THEN [S EXCEPT !.err = "too long"]
     ELSE Run(Body(e), 1, env2, New([S EXCEPT !.fuel = @ - 1], [n \in Names |-> IF n = e.n[1] THEN v ELSE Absent]))
Run(b, i, env, S) == IF i > Len(b) \/ S.err # "" THEN S ELSE Run(b, i + 1, env, TLCEval(Ex(b[i], env, S)))
Ex(e, env, S) ==
  CASE e.t = "expr" -> TLCEval(Ev(e.k[1], env, S)).S
    [] e.t \in {"asg", "for"} -> LET r == TLCEval(Ev(e.k[1], env, S)) IN
                       IF r.S.err # "" THEN r.S ELSE [r.S EXCEPT !.heap[env[e.n[1]]][e.n[1]] = IF e.t = "asg" THEN Name(e.k[1], r.v, e.n[1]) ELSE r.v]
    [] e.t = "aug" -> LET v == S.heap[env[e.n[1]]][e.n[1]] IN      \* n = show(tick(n), 1)
                       IF v.s = "?" THEN [S EXCEPT !.err = "NameError"]
                       ELSE [S EXCEPT !.log = Append(@, <<e.n[1], v.s>>), !.heap[env[e.n[1]]][e.n[1]] = V("(" \o v.s \o ", 1)")]
    [] e.t = "cls" -> LET r == TLCEval(Ev(e.k[1], env, S))
                          v == S.heap[env[e.n[1]]][e.n[1]] IN        \* a method does not see the class body
                       IF r.S.err # "" THEN r.S
                       ELSE LET S1 == [r.S EXCEPT !.log = Append(@, <<e.n[1], r.v.s>>)] IN
                            IF v.s = "?" THEN [S1 EXCEPT !.err = "NameError"] ELSE [S1 EXCEPT !.log = Append(@, <<e.n[1], v.s>>)]
    [] e.t = "def" -> IF e.n[1] = "" THEN CallDef(e, env, Absent, [S EXCEPT !.kept = Append(@, <<e, env, Absent>>)])
                      ELSE LET r == TLCEval(Ev(e.k[1], env, S)) IN
                           IF r.S.err # "" THEN r.S
                           ELSE CallDef(e, env, IF e.n[3] = "name" THEN Name(e.k[1], r.v, e.n[1]) ELSE r.v, [r.S EXCEPT !.kept = Append(@, <<e, env, IF e.n[3] = "default" THEN r.v ELSE V("'k'")>>)])
S0 == [heap |-> <<[x |-> V("'gx'"), y |-> V("'gy'")], [x |-> V("'px'"), y |-> V("'py'")]>>, log |-> <<>>, err |-> "", fuel |-> 10, kept |-> <<>>]
RECURSIVE Again(_, _, _)
Again(kept, i, S) == IF i > Len(kept) \/ S.err # "" THEN S ELSE Again(kept, i + 1, TLCEval(CallDef(kept[i][1], kept[i][2], kept[i][3], S)))
Result == LET S1 == TLCEval(Run(st, 1, [n \in Names |-> 2], S0))
              S2 == TLCEval(Again(S1.kept, 1, S1))
              S3 == TLCEval(Run(st, 1, [n \in Names |-> Len(S2.heap) + 1], New(S2, S0.heap[2])))      \* the whole function once more
          IN [log |-> IF S2.err # "" THEN S2.log ELSE S3.log, err |-> IF S2.err # "" THEN S2.err ELSE S3.err]
Emit == done => LET r == TLCEval(Result) IN (r.err # "too long" /\ r.log # <<>>) => PrintT("@@" \o ToJson([b |-> st, r |-> r]))
=============================================================================
