-------------------------------- MODULE Gtco -------------------------------
(* Generators that tail-chain into other generators (gtco, gtrampolined).    *)
(* Node i yields ys[i] items and then ends: with a plain value, with a batch *)
(* of final items, by raising, or by returning another generator, which then *)
(* takes its place. The consumer drives it with next, send, throw and close. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, MaxOps
VARIABLES g, s, h

Ends == {[e |-> x, to |-> 0] : x \in {"none", "val", "raise", "list0", "list2", "badlist"}} \union [e : {"chain", "tramp", "part"}, to : 1..N]
Node == {x \in [ys : 0..2, catch : BOOLEAN, end : Ends] : x.end.e \in {"chain", "tramp", "part"} => x.ys > 0}
Ops == {"next", "send", "throw", "close"}

\* outcome of an operation: kind, what, log of what the nodes saw
St(ph, i, k) == [ph |-> ph, i |-> i, k |-> k]
Done == St("done", 0, 0)
Out(st, kind, v, log) == [st |-> st, kind |-> kind, v |-> v, log |-> log]
RECURSIVE Advance(_, _, _)
Advance(i, k, log) ==
  IF k < g[i].ys THEN Out(St("at", i, k + 1), "yield", <<i, k + 1>>, log)
  ELSE LET e == g[i].end IN
       CASE e.e \in {"none", "list0"} -> Out(Done, "stop", <<0>>, log)
         [] e.e = "val" -> Out(Done, "stop", <<i, 42>>, log)
         [] e.e = "raise" -> Out(Done, "Boom", <<i>>, log)
         [] e.e \in {"list2", "badlist"} -> Out(St(e.e, i, 1), "yield", <<i, 101>>, log)
         [] e.e \in {"chain", "tramp"} -> Advance(e.to, 0, log)
         \* a generator whose first item was taken before it is chained to
         [] e.e = "part" -> IF g[e.to].ys < 2 THEN Advance(e.to, 0, log) ELSE Advance(e.to, 1, Append(log, <<e.to, 1, "None">>))
Step(x, op) ==
  CASE x.ph = "fresh" ->
         (CASE op = "next" -> Advance(x.i, 0, <<>>)
            [] op = "send" -> Out(x, "TypeError", <<>>, <<>>)          \* a generator that has not started accepts no value
            [] op = "throw" -> Out(Done, "Boom", <<99>>, <<>>)
            [] op = "close" -> Out(Done, "closed", <<>>, <<>>))
    [] x.ph = "at" ->
         (CASE op = "next" -> Advance(x.i, x.k, << <<x.i, x.k, "None">> >>)
            [] op = "send" -> Advance(x.i, x.k, << <<x.i, x.k, "sent">> >>)
            [] op = "throw" -> IF g[x.i].catch THEN Advance(x.i, x.k, << <<x.i, x.k, "caught">> >>) ELSE Out(Done, "Boom", <<99>>, << <<x.i, x.k, "exit">> >>)
            [] op = "close" -> Out(Done, "closed", <<>>, << <<x.i, x.k, "exit">> >>))
    [] x.ph \in {"list2", "badlist"} ->
         (CASE op \in {"next", "send"} -> IF x.k = 2 THEN Out(Done, "stop", <<0>>, <<>>)
                              ELSE IF x.ph = "badlist" THEN Out(Done, "TypeError", <<>>, <<>>)
                              ELSE Out(St(x.ph, x.i, 2), "yield", <<x.i, 102>>, <<>>)
            [] op = "throw" -> Out(Done, "Boom", <<99>>, <<>>)
            [] op = "close" -> Out(Done, "closed", <<>>, <<>>))
    [] x.ph = "done" ->
         (CASE op \in {"next", "send"} -> Out(Done, "stop", <<0>>, <<>>)
            [] op = "throw" -> Out(Done, "Boom", <<99>>, <<>>)
            [] op = "close" -> Out(Done, "closed", <<>>, <<>>))
Allowed(x, op) == ~(x.ph \in {"list2", "badlist"} /\ op = "send")      \* the final batch is any iterable: it need not have send

Init == g = <<>> /\ s = St("fresh", 1, 0) /\ h = <<>>
Next == \/ Len(g) < N /\ \E nd \in Node : g' = Append(g, nd) /\ UNCHANGED <<s, h>>
        \/ Len(g) = N /\ Len(h) < MaxOps /\ \E op \in Ops : Allowed(s, op) /\ LET o == Step(s, op) IN s' = o.st /\ h' = Append(h, [o |-> op, kind |-> o.kind, v |-> o.v, log |-> o.log]) /\ UNCHANGED g
\* once it has ended it stays ended; an item never follows the end
Ended == \A i \in 1..Len(h) : h[i].kind \in {"stop", "Boom", "closed"} => \A j \in (i + 1)..Len(h) : h[j].kind # "yield"
EmitCase == Len(h) = MaxOps => PrintT("@@" \o ToJson([g |-> g, h |-> h]))
=============================================================================
