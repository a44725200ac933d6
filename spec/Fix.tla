-------------------------------- MODULE Fix --------------------------------
(* Breaking recursion cycles (fix) and doing so in code with tail calls      *)
(* (fixtco). A program is a graph: node i is one call f(i) or g(i); it makes *)
(* calls in order, possibly catching their exceptions, and then returns the  *)
(* collected results, raises, or calls another node in tail position. A call *)
(* of a node that is still being computed (by the same thread) gives bottom. *)
(* With memo, finished calls (results and exceptions) are remembered.        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, MaxCalls, MaxTop
VARIABLES g, top, opt

RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>} ELSE LET T == SeqsUpTo(S, n - 1) IN T \union {Append(s, x) : s \in {t \in T : Len(t) = n - 1}, x \in S}
Ends == {[e |-> "ret", to |-> 0], [e |-> "raise", to |-> 0]} \union {[e |-> "tail", to |-> j] : j \in 1..N}
Node == [calls : SeqsUpTo(1..N, MaxCalls), catch : BOOLEAN, end : Ends]

OK(v) == [k |-> "ok", v |-> v]
Exc(v) == [k |-> "exc", v |-> v]
Bot(i) == OK("bot" \o ToString(i))
None == [k |-> "none", v |-> ""]
R(r, m, n) == [r |-> r, m |-> m, n |-> n]

\* o: [memo, tco]; vis: nodes being computed; m: memo; n: number of nodes entered so far
RECURSIVE Call(_, _, _, _, _, _), Body(_, _, _, _, _, _), Calls(_, _, _, _, _, _, _, _)
Call(p, o, i, vis, m, n) ==
  IF i \in vis THEN R(Bot(i), m, n)
  ELSE IF o.memo /\ m[i].k # "none" THEN R(m[i], m, n)
  ELSE LET b == TLCEval(Body(p, o, i, vis \union {i}, m, n))
       IN R(b.r, IF o.memo THEN [b.m EXCEPT ![i] = b.r] ELSE b.m, b.n)
Body(p, o, i, vis, m, n) ==
  LET c == TLCEval(Calls(p, o, i, 1, vis, m, n + 1, "")) IN
  IF c.r.k = "exc" THEN c
  ELSE CASE p[i].end.e = "ret" -> R(OK("(" \o ToString(i) \o c.r.v \o ")"), c.m, c.n)
         [] p[i].end.e = "raise" -> R(Exc("boom" \o ToString(i)), c.m, c.n)
         [] p[i].end.e = "tail" ->
              LET j == p[i].end.to IN
              IF ~o.tco THEN Call(p, o, j, vis, c.m, c.n)
              ELSE IF j \in vis THEN R(Bot(j), c.m, c.n)
              ELSE Body(p, o, j, vis \union {j}, c.m, c.n)
Calls(p, o, i, k, vis, m, n, acc) ==
  IF k > Len(p[i].calls) THEN R(OK(acc), m, n)
  ELSE LET c == TLCEval(Call(p, o, p[i].calls[k], vis, m, n)) IN
       IF c.r.k = "exc" /\ ~p[i].catch THEN c
       ELSE Calls(p, o, i, k + 1, vis, c.m, c.n, acc \o (IF c.r.k = "exc" THEN "!" \o c.r.v ELSE c.r.v))

RECURSIVE Tops(_, _, _, _, _)
Tops(p, o, ts, k, m) ==
  IF k > Len(ts) THEN <<>>
  ELSE LET c == TLCEval(Call(p, o, ts[k], {}, m, 0)) IN <<[r |-> c.r, n |-> c.n]>> \o Tops(p, o, ts, k + 1, c.m)
Memo0 == [i \in 1..N |-> None]
Meaning == Tops(g, opt, top, 1, Memo0)

Init == g = <<>> /\ top = <<>> /\ opt \in [memo : BOOLEAN, tco : BOOLEAN]
Next == \/ Len(g) < N /\ \E nd \in Node : g' = Append(g, nd) /\ UNCHANGED <<top, opt>>
        \/ Len(g) = N /\ Len(top) < MaxTop /\ \E i \in 1..N : top' = Append(top, i) /\ UNCHANGED <<g, opt>>
Ready == Len(g) = N /\ Len(top) = MaxTop
\* without memo, every top-level call stands alone: the same call gives the same result
Repeatable == (Ready /\ ~opt.memo) => LET m == Meaning IN \A a, b \in 1..MaxTop : top[a] = top[b] => m[a] = m[b]
\* in an acyclic program nothing is cut: the memo and the tail calls make no difference
RECURSIVE Reach(_)
Reach(S) == LET T == S \union UNION {{g[i].calls[k] : k \in 1..Len(g[i].calls)} \union (IF g[i].end.e = "tail" THEN {g[i].end.to} ELSE {}) : i \in S} IN IF T = S THEN S ELSE Reach(T)
Succ(i) == Reach({g[i].calls[k] : k \in 1..Len(g[i].calls)} \union (IF g[i].end.e = "tail" THEN {g[i].end.to} ELSE {}))
Acyclic == \A i \in 1..N : i \notin Succ(i)
AcyclicSame == (Ready /\ Acyclic) => \A o \in [memo : BOOLEAN, tco : BOOLEAN] : LET a == Meaning b == Tops(g, o, top, 1, Memo0) IN \A k \in 1..MaxTop : a[k].r = b[k].r
EmitCase == Ready => PrintT("@@" \o ToJson([g |-> g, top |-> top, opt |-> opt, r |-> Meaning]))
=============================================================================
