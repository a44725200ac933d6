------------------------------ MODULE Notebook ------------------------------
(* The nb block (notebook: show the value of each expression statement and   *)
(* keep it in _), the dbg block (printing shows the source text of the       *)
(* arguments) and the dbg expression (shows and passes through). A program   *)
(* is executed one statement at a time; everything that can be observed goes *)
(* to the log, in order: calls, what is shown, what is printed.              *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANTS MaxStmts, Modes, Sample
VARIABLES mode, st, log, prog

None == "None"
Vals == {"0", "1", None}
Mk(t, a, n) == [t |-> t, a |-> a, n |-> n]
Const(c) == Mk("const", <<>>, c)
Var(x) == Mk("var", <<>>, x)
F(e) == Mk("f", <<e>>, "f")          \* a logging function: 0 -> 1, 1 -> None, None -> 0
Dbg(e) == Mk("dbg", <<e>>, "dbg")
Lam(e) == Mk("lam", <<e>>, "lam")    \* (lambda: e)()
Pr(p, es) == Mk("print", es, p)      \* a call of print or prt, with any number of arguments
Leaf == {Const("0"), Const(None), Var("x"), Var("y")} \union (IF mode \in {"nb", "nbpr"} THEN {Var("u")} ELSE {})
E1 == Leaf \union {F(e) : e \in Leaf} \union {Dbg(e) : e \in Leaf} \union {Pr(p, <<>>) : p \in {"print", "prt"}} \union {Pr(p, <<e>>) : p \in {"print", "prt"}, e \in Leaf}
E2 == E1 \union {F(e) : e \in E1} \union {Dbg(e) : e \in E1} \union {Lam(e) : e \in E1} \union {Pr(p, <<e, F(d)>>) : p \in {"print", "prt"}, e \in E1, d \in Leaf}
Stmts == {[s |-> "expr", x |-> "", e |-> e] : e \in E2} \union {[s |-> "assign", x |-> x, e |-> e] : x \in {"x", "y"}, e \in E2} \union {[s |-> k, x |-> "", e |-> e] : k \in {"nested", "def"}, e \in E1}

Fv(v) == IF v = "0" THEN "1" ELSE IF v = "1" THEN None ELSE "0"
Shown(p) == IF mode = "dbg" THEN p = "print" ELSE IF mode = "dbgpr" THEN p = "prt" ELSE FALSE

RECURSIVE Ev(_, _, _), Evs(_, _, _)
Ev(e, s, l) ==
  CASE e.t = "const" -> [v |-> e.n, l |-> l]
    [] e.t = "var" -> [v |-> s[e.n], l |-> l]
    [] e.t = "lam" -> Ev(e.a[1], s, l)
    [] e.t = "f" -> LET r == TLCEval(Ev(e.a[1], s, l)) IN [v |-> Fv(r.v), l |-> Append(r.l, [k |-> "call", n |-> "f", e |-> <<>>, v |-> <<r.v>>])]
    [] e.t = "dbg" -> LET r == TLCEval(Ev(e.a[1], s, l)) IN [v |-> r.v, l |-> Append(r.l, [k |-> "dbg", n |-> "", e |-> e.a, v |-> <<r.v>>])]
    [] e.t = "print" -> LET r == TLCEval(Evs(e.a, s, l)) IN [v |-> None, l |-> Append(r.l, [k |-> IF Shown(e.n) THEN "show" ELSE "call", n |-> e.n, e |-> IF Shown(e.n) THEN e.a ELSE <<>>, v |-> r.v])]
Evs(es, s, l) == IF es = <<>> THEN [v |-> <<>>, l |-> l]
                 ELSE LET r == TLCEval(Ev(es[1], s, l)) q == TLCEval(Evs(Tail(es), s, r.l)) IN [v |-> <<r.v>> \o q.v, l |-> q.l]

Exec(c) ==
  LET r == TLCEval(Ev(c.e, st, log)) IN
  CASE c.s = "assign" -> [st |-> [st EXCEPT ![c.x] = r.v], log |-> r.l]
    [] c.s \in {"nested", "def"} -> [st |-> st, log |-> r.l]
    [] c.s = "expr" -> IF mode \notin {"nb", "nbpr"} THEN [st |-> st, log |-> r.l]
                       ELSE [st |-> [st EXCEPT !["u"] = r.v],
                             log |-> IF r.v = None THEN r.l ELSE Append(r.l, [k |-> "call", n |-> IF mode = "nb" THEN "print" ELSE "prt", e |-> <<>>, v |-> <<r.v>>])]

Init == mode \in Modes /\ st = [x |-> "1", y |-> None, u |-> None] /\ log = <<>> /\ prog = <<>>
Next == Len(prog) < MaxStmts /\ \E c \in (IF Sample = 0 THEN Stmts ELSE RandomSubset(Sample, Stmts)) : LET r == TLCEval(Exec(c)) IN st' = r.st /\ log' = r.log /\ prog' = Append(prog, c) /\ UNCHANGED mode
\* only expression statements touch _; showing changes nothing else
Transparent == [][LET c == prog'[Len(prog')] IN (c.s # "expr" => st'["u"] = st["u"]) /\ (c.s # "assign" => st'.x = st.x /\ st'.y = st.y)]_<<mode, st, log, prog>>
Emit == Len(prog) = MaxStmts => PrintT("@@" \o ToJson([mode |-> mode, prog |-> prog, st |-> st, log |-> log]))
=============================================================================
