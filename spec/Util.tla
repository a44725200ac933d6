-------------------------------- MODULE Util --------------------------------
(* Popper and CountingIterator: several of them over one container, with the *)
(* container changed in between; slurp of a queue; getattrrec/setattrrec on  *)
(* an onion of wrappers.                                                     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxHist, Poppers, Counters
VARIABLES box,     \* the items in the container of the poppers
          alive,   \* poppers that have not ended
          src,     \* for each counter, what its source will do: item / error / end
          cnt,     \* how many items each counter has yielded
          que,     \* the queue
          onion,   \* layers, from the outside: number of layers that have the attribute, and what is inside
          h, h0    \* history, and what it started from
vars == <<box, alive, src, cnt, que, onion, h, h0>>
Items == {0, 1, 2}
O(op, who, x) == [op |-> op, who |-> who, x |-> x]
Ops == {O("next", p, 0) : p \in alive}
  \union {O(op, 0, x) : op \in {"append", "appendleft", "insert", "put"}, x \in Items}
  \union {O(op, 0, 0) : op \in {"clear", "pop", "slurp", "getrec", "getdefault"}}
  \union {O("count", c, 0) : c \in Counters}
  \union {O("setrec", 0, x) : x \in Items} \union {O("wrap", 0, 0)}

Step(o) ==
  LET same == [box |-> box, alive |-> alive, src |-> src, cnt |-> cnt, que |-> que, onion |-> onion, out |-> <<>>] IN
  CASE o.op = "next" -> IF box = <<>> THEN [same EXCEPT !.alive = @ \ {o.who}, !.out = <<"stop">>] ELSE [same EXCEPT !.box = Tail(box), !.out = <<"item", box[1]>>]
    [] o.op = "append" -> [same EXCEPT !.box = Append(@, o.x)]
    [] o.op = "appendleft" -> [same EXCEPT !.box = <<o.x>> \o @]
    [] o.op = "insert" -> IF Len(box) < 1 THEN [same EXCEPT !.box = <<o.x>>] ELSE [same EXCEPT !.box = <<box[1], o.x>> \o Tail(box)]
    [] o.op = "clear" -> [same EXCEPT !.box = <<>>]
    [] o.op = "pop" -> IF box = <<>> THEN same ELSE [same EXCEPT !.box = SubSeq(box, 1, Len(box) - 1)]
    [] o.op = "put" -> [same EXCEPT !.que = Append(@, o.x)]
    [] o.op = "slurp" -> [same EXCEPT !.que = <<>>, !.out = que]
    [] o.op = "count" -> IF src[o.who] = <<>> THEN [same EXCEPT !.out = <<"stop">>]
                         ELSE IF src[o.who][1] = 9 THEN [same EXCEPT !.src[o.who] = Tail(@), !.out = <<"error">>]
                         ELSE [same EXCEPT !.src[o.who] = Tail(@), !.cnt[o.who] = @ + 1, !.out = <<"item", src[o.who][1]>>]
    [] o.op = "wrap" -> [same EXCEPT !.onion.depth = @ + 1]
    [] o.op = "getrec" -> [same EXCEPT !.out = IF onion.depth = 0 THEN <<"missing">> ELSE <<"item", onion.val>>]
    [] o.op = "getdefault" -> [same EXCEPT !.out = IF onion.depth = 0 THEN <<"default">> ELSE <<"item", onion.val>>]
    [] o.op = "setrec" -> [same EXCEPT !.onion = [depth |-> IF @.depth = 0 THEN 1 ELSE @.depth, val |-> o.x]]

Init == /\ box \in {<<>>, <<1>>, <<0, 2, 0>>} /\ alive = Poppers /\ que = <<>> /\ h = <<>>
        /\ src \in [Counters -> {<<>>, <<0, 9, 1>>, <<2, 0, 1, 2>>, <<9, 1>>}] /\ cnt = [c \in Counters |-> 0]
        /\ onion = [depth |-> 0, val |-> 0] /\ h0 = [box |-> box, src |-> src]
Next == \E o \in Ops : LET s == TLCEval(Step(o)) IN
          /\ Len(h) < MaxHist /\ Len(s.box) <= 6 /\ s.onion.depth <= 4 /\ (o.op = "wrap" => onion.depth > 0)
          /\ box' = s.box /\ alive' = s.alive /\ src' = s.src /\ cnt' = s.cnt /\ que' = s.que /\ onion' = s.onion /\ h0' = h0
          /\ h' = Append(h, [o |-> o, out |-> s.out, cnt |-> s.cnt, box |-> s.box])
Spec == Init /\ [][Next]_vars
Counted == \A c \in Counters : cnt[c] <= Len(SelectSeq(h, LAMBDA e : e.o.op = "count" /\ e.o.who = c))
Grows == [][\A c \in Counters : cnt'[c] >= cnt[c] /\ cnt'[c] + Len(src'[c]) <= cnt[c] + Len(src[c])]_vars
Emit == Len(h) = MaxHist => PrintT("@@" \o ToJson([h |-> h, box0 |-> h0.box, src0 |-> h0.src]))
=============================================================================
