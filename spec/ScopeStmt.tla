------------------------------ MODULE ScopeStmt -----------------------------
(* Scope in the body of a function under a let decorator (dlet, dletseq,     *)
(* dletrec, blet, ...). A name refers to the let environment until the       *)
(* statement after one that binds it as a local variable (assignment, for,   *)
(* with, inside an if, a parameter throughout), and again after it has been  *)
(* deleted. The environment is made once and lives across calls.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, MaxInner
VARIABLES deco, bs, par, body, inner, phase, sc, isc, seen
vars == <<deco, bs, par, body, inner, phase, sc, isc, seen>>
Names == {"x", "y"}
Expr == {[k |-> "c", n |-> v] : v \in {"1", "None"}} \union {[k |-> "ref", n |-> n] : n \in Names}
St(op, n, e, b) == [op |-> op, n |-> n, e |-> e, b |-> b]
NoE == [k |-> "c", n |-> "None"]
Init == /\ deco \in {"dlet", "dletseq", "dletrec", "blet", "bletseq", "bletrec"} /\ par \in {"", "x"} /\ (par # "" => deco \in {"dlet", "dletrec"})
        /\ \E n1 \in Names, n2 \in Names, e1 \in Expr, e2 \in Expr :
             /\ deco \in {"dlet", "dletrec", "blet", "bletrec"} => n1 # n2
             /\ deco \in {"dletrec", "bletrec"} => (e1.k = "c" /\ (e2.k = "ref" => e2.n = n1))
             /\ bs = <<[n |-> n1, e |-> e1], [n |-> n2, e |-> e2]>>
        /\ body = <<>> /\ inner = <<>> /\ phase = "body" /\ isc = [n \in Names |-> ""] /\ seen = {}
        /\ sc = [n \in Names |-> IF n = par THEN "arg" ELSE IF n \in {bs[1].n, bs[2].n} THEN "e" ELSE "g"]      \* g: the global variable
\* names that a statement binds as local variables
Binds(s) == IF s.op \in {"asg", "if", "for", "with", "aug"} THEN {s.n} ELSE {}
ReadsOk(e, scope, later) == TRUE
Simple == {St(op, n, e, <<>>) : op \in {"asg", "if", "for", "with", "set"}, n \in Names, e \in Expr} \union {St(op, n, NoE, <<>>) : op \in {"log", "del"}, n \in Names}
\* A statement is used only where Python itself gives it a meaning
Fits(s, scope) == /\ s.op = "set" => scope[s.n] = "e"
                  /\ s.op = "del" => scope[s.n] = "l"
                  /\ s.op \in {"asg", "if", "for", "with"} => scope[s.n] # "g"
Step(s, scope) == [n \in Names |-> IF n \in Binds(s) /\ scope[n] = "e" THEN "l" ELSE IF s.op = "del" /\ n = s.n THEN "e" ELSE scope[n]]
AddBody == /\ phase = "body" /\ Len(body) < MaxLen /\ \E s \in Simple : Fits(s, sc) /\ body' = Append(body, s) /\ sc' = Step(s, sc)
           /\ UNCHANGED <<deco, bs, par, inner, phase, isc, seen>>
\* a nested function, called at once. Its own locals: "l2". A name that it binds must not have been read before as a variable of the outer function.
BeginInner == phase = "body" /\ Len(body) < MaxLen /\ phase' = "inner" /\ isc' = sc /\ inner' = <<>> /\ seen' = {} /\ UNCHANGED <<deco, bs, par, body, sc>>
ReadNames(s) == (IF s.op = "log" THEN {s.n} ELSE {}) \union (IF s.e.k = "ref" THEN {s.e.n} ELSE {})
AddInner == /\ phase = "inner" /\ Len(inner) < MaxInner
            /\ \E s \in Simple : /\ s.op \in {"asg", "for", "log", "set"}
                                 /\ s.op = "set" => isc[s.n] = "e"
                                 /\ s.op \in {"asg", "for"} => (isc[s.n] # "g" /\ s.n \notin seen /\ ~(s.e.k = "ref" /\ s.e.n = s.n /\ isc[s.n] # "e" /\ isc[s.n] # "l2"))
                                 /\ inner' = Append(inner, s)
                                 /\ seen' = seen \union {n \in ReadNames(s) : isc[n] \in {"l", "arg", "g"}}
                                 /\ isc' = [n \in Names |-> IF n \in Binds(s) THEN "l2" ELSE isc[n]]
            /\ UNCHANGED <<deco, bs, par, body, phase, sc>>
EndInner == phase = "inner" /\ inner # <<>> /\ body' = Append(body, St("def", "", NoE, inner)) /\ phase' = "body" /\ UNCHANGED <<deco, bs, par, inner, sc, isc, seen>>
Finish == phase = "body" /\ Len(body) >= 2 /\ phase' = "done" /\ UNCHANGED <<deco, bs, par, body, inner, sc, isc, seen>>
Next == AddBody \/ BeginInner \/ AddInner \/ EndInner \/ Finish

\* ------------------------------------------------------------- meaning
G == [x |-> "'gx'", y |-> "'gy'"]
\* S: env (the let environment), loc (locals), log
Lookup(n, scope, S) == CASE scope[n] = "e" -> S.env[n] [] scope[n] \in {"l", "arg"} -> S.loc[n] [] scope[n] = "l2" -> S.loc2[n] [] scope[n] = "g" -> G[n]
EvE(e, scope, S) == IF e.k = "c" THEN e.n ELSE Lookup(e.n, scope, S)
RECURSIVE Run(_, _, _, _, _)
Run(ss, i, scope, S, level) ==
  IF i > Len(ss) THEN S ELSE
  LET s == ss[i]  v == EvE(s.e, scope, S) IN
  CASE s.op = "log" -> Run(ss, i + 1, scope, [S EXCEPT !.log = Append(@, <<s.n, Lookup(s.n, scope, S)>>)], level)
    [] s.op = "set" -> Run(ss, i + 1, scope, [S EXCEPT !.env[s.n] = v], level)
    [] s.op = "del" -> Run(ss, i + 1, Step(s, scope), S, level)
    [] s.op = "def" -> Run(ss, i + 1, scope, Run(s.b, 1, scope, S, 2), level)
    [] OTHER -> IF level = 1 THEN Run(ss, i + 1, Step(s, scope), [S EXCEPT !.loc[s.n] = v], level)
                ELSE Run(ss, i + 1, [scope EXCEPT ![s.n] = "l2"], [S EXCEPT !.loc2[s.n] = v], level)
Bound == {bs[1].n, bs[2].n}
Scope0 == [n \in Names |-> IF n = par THEN "arg" ELSE IF n \in Bound THEN "e" ELSE "g"]
None2 == [n \in Names |-> "?"]
Env0 == LET a == EvE(bs[1].e, [n \in Names |-> "g"], [env |-> None2])
            b == IF deco \in {"dlet", "blet"} THEN EvE(bs[2].e, [n \in Names |-> "g"], [env |-> None2])
                 ELSE IF bs[2].e.k = "ref" /\ bs[2].e.n = bs[1].n THEN a ELSE EvE(bs[2].e, [n \in Names |-> "g"], [env |-> None2])
        IN [n \in Names |-> IF n = bs[2].n THEN b ELSE IF n = bs[1].n THEN a ELSE "?"]
Loc0 == [n \in Names |-> IF n = par THEN "'ax'" ELSE "?"]
One(env) == Run(body, 1, Scope0, [env |-> env, loc |-> Loc0, loc2 |-> None2, log |-> <<>>], 1)
Result == LET a == TLCEval(One(Env0)) IN
          IF deco \in {"blet", "bletseq", "bletrec", "dletseq"} THEN <<a.log>>   \* of dletseq, only the first call is specified
          ELSE LET b == TLCEval(One(a.env)) IN <<a.log, b.log>>
Emit == phase = "done" => PrintT("@@" \o ToJson([deco |-> deco, bs |-> bs, par |-> par, body |-> body, r |-> Result]))
=============================================================================
