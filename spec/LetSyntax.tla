----------------------------- MODULE LetSyntax -----------------------------
(* let_syntax and abbrev: local substitutions, made before the code runs.    *)
(* A program has definitions, in order, and a body. A definition is a bare   *)
(* name (x1...), a template with parameters (f1...), or, in a block, a bare  *)
(* or parametric block of statements. In an expression, all templates are    *)
(* first replaced in the body, in order, then all bare names, in order; in a *)
(* block, each definition and statement sees the definitions above it.       *)
(* What is not replaced is an ordinary variable. Each use is a fresh copy,   *)
(* so the arguments are evaluated as often as the parameter occurs.          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Mode,      \* "expr" or "block"
          Kinds,     \* kinds of definitions: b (bare), t1, t2 (templates), s0, s1 (blocks of statements; only in a block)
          MaxDefs, MaxOps
VARIABLES plan, defs, st, body, n

\* [t: kind, i: number, k: children]; c: constant; name: bare name; p: parameter; inv: template use; pair; use: statement use of a block
T(t, i, k) == [t |-> t, i |-> i, k |-> k]
Arity(kd) == CASE kd = "t1" -> 1 [] kd = "t2" -> 2 [] kd = "s1" -> 1 [] OTHER -> 0
Here == Len(defs) + 1                     \* the definition being built; the body, if beyond the plan
Building == Here <= Len(plan)
Of(S) == {i \in 1..Len(plan) : plan[i] \in S}

RECURSIVE Param(_, _), Tmpl(_, _, _), Bare(_, _, _)
\* parameters replaced by arguments
Param(e, args) == IF e.t = "p" THEN args[e.i] ELSE T(e.t, e.i, [j \in 1..Len(e.k) |-> Param(e.k[j], args)])
\* every use of template i, also inside its own arguments
Tmpl(e, i, rhs) ==
  LET ks == [j \in 1..Len(e.k) |-> Tmpl(e.k[j], i, rhs)]
  IN IF e.t = "inv" /\ e.i = i THEN Param(rhs, ks) ELSE T(e.t, e.i, ks)
Bare(e, i, rhs) == IF e.t = "name" /\ e.i = i THEN rhs ELSE T(e.t, e.i, [j \in 1..Len(e.k) |-> Bare(e.k[j], i, rhs)])
\* definition i applied to a list of statements: the use of a block is replaced by its statements
RECURSIVE Apply(_, _, _), SubstT(_, _, _), SubstB(_, _, _)
Apply(ss, ds, i) ==
  IF ss = <<>> THEN <<>>
  ELSE LET e == Head(ss)
           kd == plan[i]
           here == IF kd \in {"t1", "t2"} THEN <<Tmpl(e, i, ds[i][1])>>
                   ELSE IF kd = "b" THEN <<Bare(e, i, ds[i][1])>>
                   ELSE IF e.t = "use" /\ e.i = i THEN [j \in 1..Len(ds[i]) |-> Param(ds[i][j], e.k)]
                   ELSE <<e>>
       IN here \o Apply(Tail(ss), ds, i)
\* first those with parameters, then the bare names, each in order
SubstT(ss, ds, i) == IF i > Len(ds) THEN ss ELSE SubstT(IF plan[i] \in {"t1", "t2", "s1"} THEN TLCEval(Apply(ss, ds, i)) ELSE ss, ds, i + 1)
SubstB(ss, ds, i) == IF i > Len(ds) THEN ss ELSE SubstB(IF plan[i] \in {"b", "s0"} THEN TLCEval(Apply(ss, ds, i)) ELSE ss, ds, i + 1)
Subst(ss, ds) == SubstB(SubstT(ss, ds, 1), ds, 1)

Init == /\ plan \in UNION {[1..m -> Kinds] : m \in 1..MaxDefs}
        /\ defs = <<>> /\ st = <<>> /\ body = <<>> /\ n = 0
Leaf == {T("c", i, <<>>) : i \in 1..2}
        \union {T("name", i, <<>>) : i \in Of({"b"}) \ {Here}}
        \* in the body, an ordinary variable that happens to be named as the first parameter of a template
        \union (IF Building THEN {} ELSE {T("v", i, <<>>) : i \in Of({"t1", "t2", "s1"})})
        \union (IF Building THEN {T("p", j, <<>>) : j \in 1..Arity(plan[Here])} ELSE {})
Push == Len(st) < 3 /\ \E l \in Leaf : st' = Append(st, l) /\ UNCHANGED <<plan, defs, body>>
Take(a) == SubSeq(st, Len(st) - a + 1, Len(st))
Rest(a) == SubSeq(st, 1, Len(st) - a)
Plain(s) == \A j \in 1..Len(s) : s[j].t # "use"
Pair == Len(st) >= 2 /\ Plain(Take(2)) /\ st' = Append(Rest(2), T("pair", 0, Take(2))) /\ UNCHANGED <<plan, defs, body>>
Inv == \E i \in Of({"t1", "t2"}) \ {Here} : LET a == Arity(plan[i]) IN
         Len(st) >= a /\ Plain(Take(a)) /\ st' = Append(Rest(a), T("inv", i, Take(a))) /\ UNCHANGED <<plan, defs, body>>
Use == ~Building /\ \E i \in Of({"s0", "s1"}) : LET a == Arity(plan[i]) IN
         Len(st) >= a /\ Plain(Take(a)) /\ st' = Append(Rest(a), T("use", i, Take(a))) /\ UNCHANGED <<plan, defs, body>>
Define == /\ Building
          /\ Len(st) = (IF plan[Here] \in {"s0", "s1"} THEN 2 ELSE 1)
          /\ defs' = Append(defs, IF Mode = "block" THEN Subst(st, defs) ELSE st)
          /\ body' = Append(body, st)          \* for the record: the definitions as written
          /\ st' = <<>> /\ UNCHANGED plan
Finish == /\ ~Building /\ Len(body) = Len(defs) /\ st # <<>> /\ (Mode = "expr" => Len(st) = 1)
          /\ body' = Append(body, st) /\ st' = <<>> /\ UNCHANGED <<plan, defs>>
Next == n < MaxOps /\ Len(body) <= Len(plan) /\ n' = n + 1 /\ (Push \/ Pair \/ Inv \/ Use \/ Define \/ Finish)

\* ---- evaluation of what is left: constants are logged when evaluated; a name or template that was not replaced is a variable
RECURSIVE Ev(_), Cat(_)
R(v, l) == [v |-> v, l |-> l]
Ev(e) == CASE e.t = "c" -> R(ToString(e.i), <<ToString(e.i)>>)
           [] e.t = "name" -> R("x" \o ToString(e.i), <<>>)
           [] e.t = "v" -> R("a" \o ToString(e.i), <<>>)
           [] e.t = "pair" -> LET a == Ev(e.k[1]) b == Ev(e.k[2]) IN R("(" \o a.v \o "," \o b.v \o ")", a.l \o b.l)
           [] e.t = "inv" -> LET a == Ev(e.k[1]) IN
                             IF Len(e.k) = 1 THEN R("f" \o ToString(e.i) \o "[" \o a.v \o "]", a.l)
                             ELSE LET b == Ev(e.k[2]) IN R("f" \o ToString(e.i) \o "[" \o a.v \o "," \o b.v \o "]", a.l \o b.l)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE LET a == TLCEval(Ev(Head(ss))) IN a.l \o <<"=" \o a.v>> \o Cat(Tail(ss))
Final == Len(body) = Len(plan) + 1
Result == Subst(body[Len(body)], defs)
Emit == Final => PrintT("@@" \o ToJson([plan |-> plan, prog |-> body, log |-> Cat(Result)]))
\* no parameter and no use of a block is left over
RECURSIVE Has(_, _)
Has(e, t) == e.t = t \/ \E j \in 1..Len(e.k) : Has(e.k[j], t)
Replaced == Final => \A j \in 1..Len(Result) : ~Has(Result[j], "p") /\ ~Has(Result[j], "use")
=============================================================================
