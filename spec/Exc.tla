-------------------------------- MODULE Exc --------------------------------
(* Exceptions from expressions: raisef, tryf, and the mapping of exception   *)
(* types at a boundary, reraise_in / reraise. A program is a term, built in  *)
(* postfix order on a stack; evaluating it logs the leaves in the order in   *)
(* which they run, and gives a value or an exception (its class, the leaf    *)
(* that made it, and its cause).                                             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps, MaxStack
VARIABLES st, n, done

\* classes: B is a subclass of A; A and C are unrelated; K is not a subclass of Exception
Cls == {"A", "B", "C", "K"}
Sub(c, d) == c = d \/ d = "Base" \/ (d = "Exception" /\ c # "K") \/ (c = "B" /\ d = "A")
\* what a handler or a mapping entry can name: a class, or several
Specs == {<<"A">>, <<"B">>, <<"C">>, <<"C", "B">>, <<"Exception">>, <<"Base">>, <<"K">>}
Match(c, s) == \E i \in 1..Len(s) : Sub(c, s[i])

Leaf(k, c, l) == [t |-> k, c |-> c, l |-> l]
\* tryf: body, handlers <<[s, h, a]>>, optional else and finally (a sequence of zero or one terms)
Pop(s, k) == SubSeq(s, 1, Len(s) - k)
At(s, k) == s[Len(s) - k + 1]           \* k-th from the top

Ok(v) == [k |-> "ok", v |-> v, c |-> "", l |-> 0, cause |-> 0]
Raise(c, l, cause) == [k |-> "exc", v |-> 0, c |-> c, l |-> l, cause |-> cause]
R(r, log) == [r |-> r, log |-> log]
RECURSIVE Ev(_, _), Handle(_, _, _, _), Map(_, _, _)
Handle(hs, i, r, log) ==
  IF i > Len(hs) THEN R(r, log)
  ELSE IF Match(r.c, hs[i].s) THEN Ev(hs[i].h, IF hs[i].a = 1 THEN Append(log, <<"got", r.l>>) ELSE log)
  ELSE Handle(hs, i + 1, r, log)
Map(ms, i, r) ==
  IF i > Len(ms) THEN r
  ELSE IF Match(r.c, ms[i].s) THEN Raise(ms[i].to, ms[i].l, r.l)
  ELSE Map(ms, i + 1, r)
Ev(x, log) ==
  CASE x.t = "ret" -> R(Ok(x.l), Append(log, <<"leaf", x.l>>))
    [] x.t = "nil" -> R(Ok(0), Append(log, <<"leaf", x.l>>))
    [] x.t = "raise" -> R(Raise(x.c, x.l, 0), Append(log, <<"leaf", x.l>>))
    [] x.t = "cause" -> R(Raise(x.c, x.l, 99), Append(log, <<"leaf", x.l>>))
    [] x.t = "try" ->
         LET b == TLCEval(Ev(x.body, log))
             m == IF b.r.k = "exc" THEN TLCEval(Handle(x.hs, 1, b.r, b.log))
                  ELSE IF x.els # <<>> THEN Ev(x.els[1], b.log) ELSE b
         IN IF x.fin = <<>> THEN m
            ELSE LET f == Ev(x.fin[1], m.log) IN IF f.r.k = "exc" THEN f ELSE R(m.r, f.log)
    [] x.t = "map" -> LET b == TLCEval(Ev(x.body, log)) IN IF b.r.k = "exc" THEN R(Map(x.ms, 1, b.r), b.log) ELSE b

Init == st = <<>> /\ n = 0 /\ done = FALSE
Push == Len(st) < MaxStack /\ n < MaxOps
        /\ \E k \in {"ret", "nil", "raise", "cause"}, c \in Cls :
             /\ (k \in {"ret", "nil"} => c = "A")
             /\ st' = Append(st, Leaf(k, c, n + 1)) /\ n' = n + 1
\* how many terms the tryf takes: body, nh handlers, else?, finally?
Try == n < MaxOps /\ \E nh \in 0..2, e \in 0..1, f \in 0..1 :
        LET k == 1 + nh + e + f IN
        /\ Len(st) >= k /\ k > 1
        /\ \E s1 \in Specs, s2 \in Specs, a \in 0..1 :
           /\ (nh < 2 => s2 = <<"A">>) /\ (nh < 1 => s1 = <<"A">> /\ a = 0)
           /\ LET hs == IF nh = 0 THEN <<>> ELSE IF nh = 1 THEN <<[s |-> s1, h |-> At(st, k - 1), a |-> a]>>
                        ELSE <<[s |-> s1, h |-> At(st, k - 1), a |-> a], [s |-> s2, h |-> At(st, k - 2), a |-> 1 - a]>>
              IN st' = Append(Pop(st, k), [t |-> "try", body |-> At(st, k), hs |-> hs,
                                           els |-> IF e = 1 THEN <<At(st, 1 + f)>> ELSE <<>>,
                                           fin |-> IF f = 1 THEN <<At(st, 1)>> ELSE <<>>])
           /\ n' = n + 1
Maps == {<<<<s, c>>>> : s \in Specs, c \in Cls}
        \union {<< <<<<"A">>, "C">>, <<<<"B">>, "K">> >>, << <<<<"B">>, "C">>, <<<<"A">>, "K">> >>, << <<<<"Base">>, "A">>, <<<<"C">>, "K">> >>,
                << <<<<"C", "B">>, "K">>, <<<<"Exception">>, "A">> >>, << <<<<"A">>, "A">>, <<<<"K">>, "A">> >>}
MapExc == n < MaxOps /\ st # <<>> /\ \E m \in Maps :
        /\ st' = Append(Pop(st, 1), [t |-> "map", body |-> At(st, 1), ms |-> [i \in 1..Len(m) |-> [s |-> m[i][1], to |-> m[i][2], l |-> 100 * i + n]]])
        /\ n' = n + 1
Next == \/ ~done /\ (Push \/ Try \/ MapExc) /\ UNCHANGED done
        \/ ~done /\ Len(st) = 1 /\ n > 1 /\ done' = TRUE /\ UNCHANGED <<st, n>>
\* a term without a raising leaf gives a value
RECURSIVE Quiet(_)
Quiet(x) == CASE x.t \in {"ret", "nil"} -> TRUE [] x.t \in {"raise", "cause"} -> FALSE
              [] x.t = "map" -> Quiet(x.body)
              [] x.t = "try" -> Quiet(x.body) /\ (x.els = <<>> \/ Quiet(x.els[1])) /\ (x.fin = <<>> \/ Quiet(x.fin[1]))
Sound == done => (Quiet(st[1]) => Ev(st[1], <<>>).r.k = "ok")
EmitCase == done => PrintT("@@" \o ToJson([x |-> st[1], r |-> Ev(st[1], <<>>)]))
=============================================================================
