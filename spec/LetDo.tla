------------------------------- MODULE LetDo -------------------------------
(* The function forms of let, letrec, dlet, blet, do, do0, begin and the     *)
(* pipes. A case is one state; what must be observed (events in order, then  *)
(* a result or an error) is computed by an evaluator over the case.          *)
(* A term is evaluated in an environment env : name -> value ("" = unbound). *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Names, MaxBind, MaxBody, MaxItems, MaxPipe
VARIABLES c

RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>} ELSE LET T == SeqsUpTo(S, n - 1) IN T \union {Append(s, x) : s \in {t \in T : Len(t) = n - 1}, x \in S}

\* terms: a constant; a function of the environment that reads, or rebinds, a name
Const == [k : {"const"}, n : {""}, v : {"0", "1"}]
Read == [k : {"read"}, n : Names, v : {""}]
Rebind == [k : {"set"}, n : Names, v : {"2"}]
Term == Const \union Read \union Rebind
Item == [k : {"item"}, n : {""}, t : Term] \union [k : {"assign"}, n : Names, t : Term]

Empty == [n \in Names |-> ""]
\* evaluation result: environment, value, error, log of the terms evaluated
Res(env, v, err, log) == [env |-> env, v |-> v, err |-> err, log |-> log]
EvalT(env, frozen, t, log) ==
  CASE t.k = "const" -> Res(env, t.v, "", log)
    [] t.k = "read" -> IF env[t.n] = "" THEN Res(env, "", "AttributeError", log) ELSE Res(env, env[t.n], "", Append(log, <<t.n, env[t.n]>>))
    [] t.k = "set" -> IF env[t.n] = "" THEN Res(env, "", "AttributeError", log) ELSE Res([env EXCEPT ![t.n] = t.v], t.v, "", Append(log, <<t.n, t.v>>))

RECURSIVE Bind(_, _, _, _, _)
Bind(mode, env, bs, i, log) ==
  IF i > Len(bs) THEN Res(env, "", "", log)
  ELSE IF env[bs[i].n] # "" THEN Res(env, "", "AttributeError", log)       \* the same name twice
  ELSE IF mode = "let" /\ bs[i].t.k # "const" THEN Bind(mode, [env EXCEPT ![bs[i].n] = "function"], bs, i + 1, log)
  ELSE LET r == EvalT(env, FALSE, bs[i].t, log) IN
       IF r.err # "" THEN r ELSE Bind(mode, [r.env EXCEPT ![bs[i].n] = r.v], bs, i + 1, r.log)
RECURSIVE Body(_, _, _, _)
Body(env, ts, i, r0) ==
  IF i > Len(ts) THEN r0
  ELSE LET r == EvalT(env, TRUE, ts[i], r0.log) IN IF r.err # "" THEN r ELSE Body(r.env, ts, i + 1, r)
RunLet(mode, bs, body) == LET r == Bind(mode, Empty, bs, 1, <<>>) IN IF r.err # "" THEN r ELSE Body(r.env, body, 1, Res(r.env, "", "", r.log))
\* a decorated function: the bindings are made once, the body runs at each call
RunTwice(mode, bs, body) ==
  LET r1 == RunLet(mode, bs, body) IN
  IF r1.err # "" THEN <<r1>> ELSE <<r1, Body(r1.env, body, 1, Res(r1.env, "", "", <<>>))>>

RECURSIVE RunDo(_, _, _, _)
RunDo(env, items, i, r0) ==
  IF i > Len(items) THEN r0
  ELSE LET it == items[i]
           r == EvalT(env, FALSE, it.t, r0.log)
       IN IF r.err # "" THEN r
          ELSE LET e2 == IF it.k = "assign" THEN [r.env EXCEPT ![it.n] = r.v] ELSE r.env
                   r2 == Res(e2, r.v, "", r.log)
               IN RunDo(e2, items, i + 1, r2)
DoRes(items) == RunDo(Empty, items, 1, Res(Empty, "None", "", <<>>))
Do0Res(items) == LET r == DoRes(items) IN
   IF r.err # "" THEN r ELSE [r EXCEPT !.v = RunDo(Empty, <<items[1]>>, 1, Res(Empty, "None", "", <<>>)).v]

\* pipes: the values that flow are tuples of positional values and named values
\* functions: inc (one in, one out), dup (one in, two out), add (two in, one out), name (one in, one named out), kw (named in, one out),
\* drop (one in, no values out)
PipeF == {"inc", "dup", "add", "name", "kw", "none"}
PV(p, kw, e) == [p |-> p, kw |-> kw, e |-> e]
ApplyF(f, x) ==
  LET n == Len(x.p)  m == Len(x.kw) IN
  CASE f = "inc" -> IF n = 1 /\ m = 0 THEN PV(<<x.p[1] + 1>>, <<>>, "") ELSE PV(<<>>, <<>>, "TypeError")
    [] f = "dup" -> IF n = 1 /\ m = 0 THEN PV(<<x.p[1], x.p[1] * 10>>, <<>>, "") ELSE PV(<<>>, <<>>, "TypeError")
    [] f = "add" -> IF n = 2 /\ m = 0 THEN PV(<<x.p[1] + x.p[2]>>, <<>>, "") ELSE PV(<<>>, <<>>, "TypeError")
    [] f = "name" -> IF n = 1 /\ m = 0 THEN PV(<<>>, <<x.p[1] + 5>>, "") ELSE PV(<<>>, <<>>, "TypeError")
    [] f = "kw" -> IF n = 0 /\ m = 1 THEN PV(<<x.kw[1] * 2>>, <<>>, "") ELSE PV(<<>>, <<>>, "TypeError")
    [] f = "none" -> IF n = 1 /\ m = 0 THEN PV(<<0>>, <<>>, "") ELSE PV(<<>>, <<>>, "TypeError")
RECURSIVE RunPipe(_, _, _)
RunPipe(x, fs, i) == IF i > Len(fs) THEN [r |-> x, n |-> i - 1] ELSE
                     LET y == ApplyF(fs[i], x) IN IF y.e # "" THEN [r |-> y, n |-> i - 1] ELSE RunPipe(y, fs, i + 1)

Init ==
  \/ \E f \in {"let", "letrec"}, bs \in SeqsUpTo([n : Names, t : Term], MaxBind), body \in SeqsUpTo(Read \union Rebind, MaxBody) \ {<<>>} :
        c = [f |-> f, bs |-> bs, body |-> body]
  \/ \E f \in {"do", "do0"}, items \in SeqsUpTo(Item, MaxItems) \ {<<>>} : c = [f |-> f, items |-> items]
  \/ \E fs \in SeqsUpTo(PipeF, MaxPipe), x \in {1, 2} : c = [f |-> "pipe", x |-> IF x = 1 THEN <<3>> ELSE <<3, 4>>, fs |-> fs]
Next == UNCHANGED c
Expected ==
  CASE c.f \in {"let", "letrec"} -> RunTwice(c.f, c.bs, c.body)
    [] c.f = "do" -> <<DoRes(c.items)>>
    [] c.f = "do0" -> <<Do0Res(c.items)>>
    [] c.f = "pipe" -> RunPipe(PV(c.x, <<>>, ""), c.fs, 1)
Emit == PrintT("@@" \o ToJson([c |-> c, r |-> Expected]))
=============================================================================
