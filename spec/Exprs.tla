------------------------------- MODULE Exprs -------------------------------
(* Expressions with prefix calls (tuples, quote levels, kw), cond and aif.   *)
(* A term is built in postfix order on a stack; its meaning in a prefix      *)
(* block is given by an evaluator with the quote level and the current `it`. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps, MaxStack, Forms
VARIABLES st, n, done

\* [t: kind, s: text or operators, c: children, k: named arguments <<[n, g]>> (name, group), whose values are the last children]
T(t, s, c, k) == [t |-> t, s |-> s, c |-> c, k |-> k]
Leaves == {T("lit", v, <<>>, <<>>) : v \in {"0", "1", "None", "()"}} \union {T("fn", f, <<>>, <<>>) : f \in {"F", "Z"}} \union {T("it", "", <<>>, <<>>) : i \in (IF "aif" \in Forms THEN {1} ELSE {})}
Take(a) == SubSeq(st, Len(st) - a + 1, Len(st))
Drop(a) == SubSeq(st, 1, Len(st) - a)

Res(v, log, bad) == [v |-> v, log |-> log, bad |-> bad]
Bad == Res("", <<>>, TRUE)
Falsy(v) == v \in {"0", "None", "()"}
RECURSIVE Join(_), LevelAfter(_, _, _), Ev(_, _, _, _), EvSeq(_, _, _, _, _, _), EvCond(_, _, _, _, _)
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "," \o Join(Tail(s))
LevelAfter(ops, i, lv) == IF i > Len(ops) THEN lv ELSE IF ops[i] = "q" THEN LevelAfter(ops, i + 1, lv + 1)
                          ELSE IF lv < 1 THEN -1 ELSE LevelAfter(ops, i + 1, lv - 1)
\* evaluate c[i..] in order; the values are collected
EvSeq(c, i, lv, it, log, acc) ==
  IF i > Len(c) THEN [vs |-> acc, log |-> log, bad |-> FALSE]
  ELSE LET r == TLCEval(Ev(c[i], lv, it, log)) IN IF r.bad THEN [vs |-> <<>>, log |-> <<>>, bad |-> TRUE] ELSE EvSeq(c, i + 1, lv, it, r.log, Append(acc, r.v))
EvCond(c, i, lv, it, log) ==
  IF i = Len(c) THEN Ev(c[i], lv, it, log)
  ELSE LET r == TLCEval(Ev(c[i], lv, it, log)) IN
       IF r.bad THEN Bad
       ELSE \* all parts must be well formed, whether or not they are evaluated
            IF Falsy(r.v) THEN EvCond(c, i + 2, lv, it, r.log) ELSE Ev(c[i + 1], lv, it, r.log)
Ev(x, lv, it, log) ==
  CASE x.t = "lit" -> Res(x.s, log, FALSE)
    [] x.t = "fn" -> Res("<" \o x.s \o ">", log, FALSE)
    [] x.t = "it" -> IF it = "" THEN Bad ELSE Res(it, log, FALSE)
    [] x.t = "tup" ->
         LET l2 == LevelAfter(x.s, 1, lv)
             np == Len(x.c) - Len(x.k)
             \* named arguments: the rightmost definition of a name wins, the others are dropped
             keep == SelectSeq([j \in 1..Len(x.k) |-> j], LAMBDA j : \A m \in (j + 1)..Len(x.k) : x.k[m].n # x.k[j].n)
             pos == SubSeq(x.c, 1, np)
             kwc == [j \in 1..Len(keep) |-> x.c[np + keep[j]]]
         IN IF l2 = -1 \/ Len(x.c) = 0 THEN Bad
            ELSE IF l2 > 0 THEN
               IF Len(x.k) > 0 THEN Bad
               ELSE LET r == EvSeq(pos, 1, l2, it, log, <<>>) IN IF r.bad THEN Bad ELSE Res("(" \o Join(r.vs) \o ")", r.log, FALSE)
            ELSE IF np = 0 \/ x.c[1].t # "fn" THEN Bad
            ELSE LET r == TLCEval(EvSeq(Tail(pos) \o kwc, 1, l2, it, log, <<>>)) IN
                 IF r.bad THEN Bad
                 ELSE LET names == [j \in 1..Len(r.vs) |-> IF j < np THEN r.vs[j] ELSE x.k[keep[j - np + 1]].n \o "=" \o r.vs[j]]
                          call == x.c[1].s \o "(" \o Join(names) \o ")"
                      IN Res(IF x.c[1].s = "Z" THEN "0" ELSE call, Append(r.log, call), FALSE)
    [] x.t = "brk" -> LET r == TLCEval(EvSeq(x.c, 1, lv, it, log, <<>>)) IN IF r.bad THEN Bad ELSE Res(r.vs[Len(r.vs)], r.log, FALSE)
    \* sub(c1)[c2, c3]: the tuple in the brackets is an index, not a call
    [] x.t = "sub" -> LET r == TLCEval(EvSeq(x.c, 1, lv, it, log, <<>>)) IN
                      IF r.bad THEN Bad ELSE LET v == r.vs[1] \o "[" \o Join(Tail(r.vs)) \o "]" IN Res(v, Append(r.log, v), FALSE)
    [] x.t = "cond" -> EvCond(x.c, 1, lv, it, log)
    [] x.t = "aif" -> LET r == TLCEval(Ev(x.c[1], lv, it, log)) IN
                      IF r.bad THEN Bad ELSE Ev(IF Falsy(r.v) THEN x.c[3] ELSE x.c[2], lv, r.v, r.log)
\* every part is well formed in its place, evaluated or not
RECURSIVE Wf(_, _, _, _)
Wf(x, lv, it, part) ==
  CASE x.t \in {"lit", "fn"} -> TRUE
    [] x.t = "it" -> it
    [] x.t = "brk" -> part /\ \A i \in 1..Len(x.c) : Wf(x.c[i], lv, it, FALSE)
    [] x.t = "tup" -> LET l2 == LevelAfter(x.s, 1, lv) IN
                      /\ l2 >= 0 /\ x.c # <<>> /\ (l2 > 0 => x.k = <<>>) /\ (l2 = 0 => (Len(x.c) > Len(x.k) /\ x.c[1].t = "fn"))
                      /\ \A i \in 1..Len(x.c) : Wf(x.c[i], l2, it, FALSE)
    [] x.t = "sub" -> \A i \in 1..Len(x.c) : Wf(x.c[i], lv, it, FALSE)
    [] x.t = "cond" -> \A i \in 1..Len(x.c) : Wf(x.c[i], lv, it, TRUE)
    [] x.t = "aif" -> Wf(x.c[1], lv, it, TRUE) /\ Wf(x.c[2], lv, TRUE, TRUE) /\ Wf(x.c[3], lv, TRUE, TRUE)

\* with "few" in Forms only plain and quoted tuples are built, so that the conditionals are frequent
Ops == IF "few" \in Forms THEN {<<"q">>} ELSE {<<>>, <<"q">>, <<"u">>, <<"q", "q">>, <<"q", "u">>, <<"u", "q">>, <<"u", "u">>}
Kws == IF "few" \in Forms THEN {<<>>} ELSE {<<>>, <<[n |-> "a", g |-> 1]>>, <<[n |-> "a", g |-> 1], [n |-> "b", g |-> 1]>>, <<[n |-> "b", g |-> 1], [n |-> "a", g |-> 2]>>, <<[n |-> "a", g |-> 1], [n |-> "a", g |-> 2]>>,
        <<[n |-> "a", g |-> 1], [n |-> "b", g |-> 1], [n |-> "a", g |-> 2]>>}
Init == st = <<>> /\ n = 0 /\ done = FALSE
Push == Len(st) < MaxStack /\ \E l \in Leaves : st' = Append(st, l)
Tup == "tup" \in Forms /\ \E a \in (IF "few" \in Forms THEN 2..2 ELSE 1..4), o \in Ops, k \in Kws : Len(st) >= a /\ Len(k) < a /\ (k # <<>> => Len(o) < 2) /\ st' = Append(Drop(a), T("tup", o, Take(a), k))
CallTup == "tup" \in Forms /\ \E a \in (IF "few" \in Forms THEN 0..1 ELSE 0..3), f \in {"F", "Z"}, k \in Kws : Len(st) >= a /\ Len(k) <= a /\ (a = 0 => Len(st) < MaxStack) /\ st' = Append(Drop(a), T("tup", <<>>, <<T("fn", f, <<>>, <<>>)>> \o Take(a), k))
Brk == "cond" \in Forms /\ \E a \in 1..2 : Len(st) >= a /\ (\A x \in {st[Len(st) - i + 1] : i \in 1..a} : x.t # "brk") /\ st' = Append(Drop(a), T("brk", "", Take(a), <<>>))
Cond == "cond" \in Forms /\ \E a \in {3, 5} : Len(st) >= a /\ st' = Append(Drop(a), T("cond", "", Take(a), <<>>))
Sub == "sub" \in Forms /\ Len(st) >= 3 /\ st' = Append(Drop(3), T("sub", "", Take(3), <<>>))
Aif == "aif" \in Forms /\ Len(st) >= 3 /\ st' = Append(Drop(3), T("aif", "", Take(3), <<>>))
Next == \/ ~done /\ n < MaxOps /\ (Push \/ Tup \/ CallTup \/ Brk \/ Cond \/ Aif \/ Sub) /\ n' = n + 1 /\ UNCHANGED done
        \/ ~done /\ Len(st) = 1 /\ n > 1 /\ Wf(st[1], 0, FALSE, FALSE) /\ done' = TRUE /\ UNCHANGED <<st, n>>
WellFormed == done => ~Ev(st[1], 0, "", <<>>).bad
EmitCase == done => LET r == Ev(st[1], 0, "", <<>>) IN PrintT("@@" \o ToJson([x |-> st[1], v |-> r.v, log |-> r.log]))
=============================================================================
