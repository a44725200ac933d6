-------------------------------- MODULE Scope -------------------------------
(* Lexical scope of the let and do macros. Every name occurrence belongs to  *)
(* the innermost construct that binds it at that point of the program text:  *)
(* let/letseq/letrec bindings, locals of a do (from the next item until they *)
(* are deleted), lambda parameters, comprehension variables, or the          *)
(* enclosing function. Environments are created anew at each evaluation and  *)
(* captured by closures. An assignment changes the environment in place.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSize, Forms
VARIABLES st, done
vars == <<st, done>>
Names == {"x", "y"}
Nd(t, n, k) == [t |-> t, n |-> n, k |-> k]
Ar == [t \in {"set", "thunk", "local", "call", "lam", "comp", "let", "letrec", "let2", "letseq2", "letrec2", "do2", "do3", "do02", "pair"} |->
       CASE t \in {"set", "thunk", "local", "call"} -> 1 [] t \in {"let2", "letseq2", "letrec2", "do3"} -> 3 [] OTHER -> 2]
Binder1 == {"set", "local", "lam", "comp", "let", "letrec"}
NameSets(t) == IF t \in Binder1 THEN {<<n>> : n \in Names} ELSE IF t \in {"let2", "letrec2"} THEN {<<"x", "y">>, <<"y", "x">>} ELSE IF t = "letseq2" THEN {<<a, b>> : a \in Names, b \in Names} ELSE {<<>>}
Leaf == {Nd("ref", <<n>>, <<>>) : n \in Names} \union {Nd("c", <<v>>, <<>>) : v \in {"1", "None"}} \union {Nd("delete", <<n>>, <<>>) : n \in Names}
RECURSIVE Size(_)
Size(e) == IF e.k = <<>> THEN 1 ELSE 1 + (LET RECURSIVE Sum(_)
                                              Sum(q) == IF q = <<>> THEN 0 ELSE Size(Head(q)) + Sum(Tail(q)) IN Sum(e.k))
DoItem(e) == e.t \in {"local", "delete"}
IsDo(t) == t \in {"do2", "do3", "do02"}
\* which names are assignable at a point: bound innermost by a let or do ("e") or by Python ("p")
RECURSIVE WF(_, _)
RECURSIVE WFDo(_, _, _, _)
Upd(sc, ns, v) == [n \in Names |-> IF \E i \in 1..Len(ns) : ns[i] = n THEN v ELSE sc[n]]
WFDo(items, i, sc, mine) ==      \* mine: locals in effect
  IF i > Len(items) THEN TRUE ELSE
  LET it == items[i]  now == [n \in Names |-> IF n \in mine THEN "e" ELSE sc[n]] IN
  CASE it.t = "local" -> it.n[1] \notin mine /\ ~DoItem(it.k[1]) /\ WF(it.k[1], [now EXCEPT ![it.n[1]] = IF @ = "e" THEN "n" ELSE @]) /\ WFDo(items, i + 1, sc, mine \union {it.n[1]})
    [] it.t = "delete" -> it.n[1] \in mine /\ i > 1 /\ i < Len(items) /\ WFDo(items, i + 1, sc, mine \ {it.n[1]})
    [] OTHER -> WF(it, now) /\ WFDo(items, i + 1, sc, mine)
WF(e, sc) ==
  CASE e.t \in {"ref", "c"} -> TRUE
    [] e.t = "delete" \/ e.t = "local" -> FALSE
    [] e.t = "set" -> sc[e.n[1]] = "e" /\ WF(e.k[1], sc)
    [] e.t \in {"thunk", "call"} -> WF(e.k[1], sc)
    [] e.t = "pair" -> WF(e.k[1], sc) /\ WF(e.k[2], sc)
    [] e.t \in {"lam", "comp"} -> WF(e.k[1], sc) /\ WF(e.k[2], Upd(sc, e.n, "p"))
    [] e.t = "let" -> WF(e.k[1], sc) /\ WF(e.k[2], Upd(sc, e.n, "e"))
    [] e.t = "letrec" -> WF(e.k[1], Upd(sc, e.n, "e")) /\ WF(e.k[2], Upd(sc, e.n, "e"))
    [] e.t = "let2" -> WF(e.k[1], sc) /\ WF(e.k[2], sc) /\ WF(e.k[3], Upd(sc, e.n, "e"))
    [] e.t = "letseq2" -> WF(e.k[1], sc) /\ WF(e.k[2], Upd(sc, <<e.n[1]>>, "e")) /\ WF(e.k[3], Upd(sc, e.n, "e"))
    [] e.t = "letrec2" -> LET s == Upd(sc, e.n, "e") IN WF(e.k[1], s) /\ WF(e.k[2], s) /\ WF(e.k[3], s)
    [] IsDo(e.t) -> WFDo(e.k, 1, sc, {})
Init == st = <<>> /\ done = FALSE
Build == /\ ~done
         /\ \/ Len(st) < 6 /\ \E l \in Leaf : (l.t = "delete" => "delete" \in Forms) /\ st' = Append(st, l)
            \/ \E t \in Forms \cap DOMAIN Ar : LET a == Ar[t] IN
                 Len(st) >= a /\ \E n \in NameSets(t) : st' = Append(SubSeq(st, 1, Len(st) - a), Nd(t, n, SubSeq(st, Len(st) - a + 1, Len(st))))
         /\ Size(st'[Len(st')]) <= MaxSize /\ done' = FALSE
Finish == ~done /\ Len(st) = 1 /\ Size(st[1]) >= 5 /\ WF(st[1], [n \in Names |-> "p"]) /\ done' = TRUE /\ UNCHANGED st
Next == Build \/ Finish

\* ------------------------------------------------------------- meaning
V(s) == [s |-> s, c |-> <<>>]
Absent == V("?")
\* S: heap = sequence of environments (name -> value), log, err
Empty == [n \in Names |-> Absent]
R(v, S) == [v |-> v, S |-> S]
Fail(S, e) == R(V("?"), [S EXCEPT !.err = e])
New(S, f) == [S EXCEPT !.heap = Append(@, f)]
Bindto(env, ns, id) == [n \in Names |-> IF \E i \in 1..Len(ns) : ns[i] = n THEN id ELSE env[n]]
RECURSIVE Ev(_, _, _)
RECURSIVE EvDo(_, _, _, _, _, _)
EvDo(items, i, env, mine, id, acc) ==    \* acc: value and state so far
  IF i > Len(items) \/ acc.S.err # "" THEN acc ELSE
  LET it == items[i]  now == [n \in Names |-> IF n \in mine THEN id ELSE env[n]] IN
  CASE it.t = "local" -> LET r == TLCEval(Ev(it.k[1], now, acc.S)) IN
                         IF r.S.err # "" THEN r ELSE EvDo(items, i + 1, env, mine \union {it.n[1]}, id, R(r.v, [r.S EXCEPT !.heap[id][it.n[1]] = r.v]))
    [] it.t = "delete" -> EvDo(items, i + 1, env, mine \ {it.n[1]}, id, R(V("None"), [acc.S EXCEPT !.heap[id][it.n[1]] = Absent]))
    [] OTHER -> LET r == TLCEval(Ev(it, now, acc.S)) IN EvDo(items, i + 1, env, mine, id, r)
Ev(e, env, S) ==
  IF S.err # "" THEN R(V("?"), S)
  ELSE IF Len(S.log) > 40 THEN Fail(S, "too long")
  ELSE CASE e.t = "c" -> R(V(e.n[1]), S)
    [] e.t = "ref" -> LET v == S.heap[env[e.n[1]]][e.n[1]] IN
                      IF v.s = "?" THEN Fail(S, "AttributeError") ELSE R(v, [S EXCEPT !.log = Append(@, <<e.n[1], v.s>>)])
    [] e.t = "set" -> LET r == TLCEval(Ev(e.k[1], env, S))  id == env[e.n[1]] IN
                      IF r.S.err # "" THEN r
                      ELSE IF r.S.heap[id][e.n[1]].s = "?" THEN Fail(r.S, "AttributeError")       \* not (or no longer) bound at run time
                      ELSE R(r.v, [r.S EXCEPT !.heap[id][e.n[1]] = r.v])
    [] e.t = "thunk" -> R([s |-> "fn", c |-> <<e.k[1], env>>], S)
    [] e.t = "call" -> LET r == TLCEval(Ev(e.k[1], env, S)) IN
                       IF r.S.err # "" \/ r.v.s # "fn" THEN r
                       ELSE IF Len(r.S.heap) > 30 \/ r.S.fuel = 0 THEN Fail(r.S, "too long") ELSE Ev(r.v.c[1], r.v.c[2], [r.S EXCEPT !.fuel = @ - 1])
    [] e.t = "pair" -> LET a == TLCEval(Ev(e.k[1], env, S))  b == TLCEval(Ev(e.k[2], env, a.S)) IN
                       IF b.S.err # "" THEN b ELSE R(V("(" \o a.v.s \o ", " \o b.v.s \o ")"), b.S)
    [] e.t \in {"lam", "comp", "let"} -> LET r == TLCEval(Ev(e.k[1], env, S)) IN
                       IF r.S.err # "" THEN r
                       ELSE Ev(e.k[2], Bindto(env, e.n, Len(r.S.heap) + 1), New(r.S, [Empty EXCEPT ![e.n[1]] = r.v]))
    [] e.t = "let2" -> LET a == TLCEval(Ev(e.k[1], env, S))  b == TLCEval(Ev(e.k[2], env, a.S)) IN
                       IF b.S.err # "" THEN b
                       ELSE Ev(e.k[3], Bindto(env, e.n, Len(b.S.heap) + 1), New(b.S, [Empty EXCEPT ![e.n[1]] = a.v, ![e.n[2]] = b.v]))
    [] e.t = "letseq2" -> LET a == TLCEval(Ev(e.k[1], env, S)) IN
                       IF a.S.err # "" THEN a
                       ELSE LET env1 == Bindto(env, <<e.n[1]>>, Len(a.S.heap) + 1)
                                b == TLCEval(Ev(e.k[2], env1, New(a.S, [Empty EXCEPT ![e.n[1]] = a.v]))) IN
                            IF b.S.err # "" THEN b ELSE Ev(e.k[3], Bindto(env1, <<e.n[2]>>, Len(b.S.heap) + 1), New(b.S, [Empty EXCEPT ![e.n[2]] = b.v]))
    [] e.t \in {"letrec", "letrec2"} ->
                       LET id == Len(S.heap) + 1  env1 == Bindto(env, e.n, id)
                           a == TLCEval(Ev(e.k[1], env1, New(S, Empty))) IN
                       IF a.S.err # "" THEN a
                       ELSE LET a1 == [a.S EXCEPT !.heap[id][e.n[1]] = a.v] IN
                            IF e.t = "letrec" THEN Ev(e.k[2], env1, a1)
                            ELSE LET b == TLCEval(Ev(e.k[2], env1, a1)) IN
                                 IF b.S.err # "" THEN b ELSE Ev(e.k[3], env1, [b.S EXCEPT !.heap[id][e.n[2]] = b.v])
    [] e.t \in {"do2", "do3"} -> EvDo(e.k, 1, env, {}, Len(S.heap) + 1, R(V("None"), New(S, Empty)))
    [] e.t = "do02" -> LET id == Len(S.heap) + 1
                           a == TLCEval(EvDo(<<e.k[1]>>, 1, env, {}, id, R(V("None"), New(S, Empty))))
                           mine == IF e.k[1].t = "local" THEN {e.k[1].n[1]} ELSE {}
                           b == TLCEval(EvDo(<<e.k[2]>>, 1, env, mine, id, a)) IN
                       IF b.S.err # "" THEN b ELSE R(a.v, b.S)
S0 == [heap |-> <<[x |-> V("'px'"), y |-> V("'py'")]>>, log |-> <<>>, err |-> "", fuel |-> 8]
Result == LET r == TLCEval(Ev(st[1], [n \in Names |-> 1], S0)) IN [v |-> r.v.s, log |-> r.S.log, err |-> r.S.err]
Emit == done => LET r == TLCEval(Result) IN r.err # "too long" => PrintT("@@" \o ToJson([e |-> st[1], r |-> r]))
=============================================================================
