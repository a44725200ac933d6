-------------------------------- MODULE Box --------------------------------
(* box, ThreadLocalBox, unbox and Shim. One value box and one box that holds *)
(* the target object of a Shim; both are thread-local or both shared (Local).*)
(* Objects have attributes p, q; the Shim reads from its current target,     *)
(* then from the fallback, and writes to the target only.                    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Threads, Local, MaxHist, Fallback
VARIABLES box, dflt, tgt, tdef, attr, h

Vals == {"0", "None", "a"}
Objs == {"A", "B"}
Attrs == {"p", "q"}
Fb == "F"
All == Objs \union {Fb}
Unset == "unset"
Key(t) == IF Local THEN t ELSE CHOOSE u \in Threads : TRUE
Content(t) == IF box[Key(t)] = Unset THEN dflt ELSE box[Key(t)]
Target(t) == IF tgt[Key(t)] = Unset THEN tdef ELSE tgt[Key(t)]

O(op, t, x, y) == [op |-> op, t |-> t, x |-> x, y |-> y]
Ops == {O(op, t, "", "") : op \in {"get"}, t \in Threads}
  \union {O("set", t, v, "") : t \in Threads, v \in Vals}
  \union {O("point", t, o, "") : t \in Threads, o \in Objs}
  \union {O("read", t, a, "") : t \in Threads, a \in Attrs}
  \union {O("write", t, a, v) : t \in Threads, a \in Attrs, v \in Vals}
  \union {O("owrite", t, o, "p") : t \in Threads, o \in All}
  \union (IF Local THEN {O(op, t, "", "") : op \in {"clear", "unpoint", "getdefault"}, t \in Threads} \union {O("setdefault", t, v, "") : t \in Threads, v \in Vals} \union {O("deftarget", t, o, "") : t \in Threads, o \in Objs} ELSE {})

S == [box |-> box, dflt |-> dflt, tgt |-> tgt, tdef |-> tdef, attr |-> attr]
Res(o) ==
  LET t == o.t
      r(s, k, v) == [s |-> s, kind |-> k, v |-> v]
  IN CASE o.op = "get" -> r(S, "ok", Content(t))
       [] o.op = "set" -> r([S EXCEPT !.box[Key(t)] = o.x], "ok", o.x)
       [] o.op = "clear" -> r([S EXCEPT !.box[Key(t)] = Unset], "ok", "")
       [] o.op = "setdefault" -> r([S EXCEPT !.dflt = o.x], "ok", "")
       [] o.op = "getdefault" -> r(S, "ok", dflt)
       [] o.op = "point" -> r([S EXCEPT !.tgt[Key(t)] = o.x], "ok", o.x)
       [] o.op = "unpoint" -> r([S EXCEPT !.tgt[Key(t)] = Unset], "ok", "")
       [] o.op = "deftarget" -> r([S EXCEPT !.tdef = o.x], "ok", "")
       [] o.op = "owrite" -> r([S EXCEPT !.attr[o.x][o.y] = "w"], "ok", "")
       [] o.op = "write" -> r([S EXCEPT !.attr[Target(t)][o.x] = o.y], "ok", "")
       [] o.op = "read" -> IF attr[Target(t)][o.x] # Unset THEN r(S, "ok", attr[Target(t)][o.x])
                           ELSE IF Fallback /\ attr[Fb][o.x] # Unset THEN r(S, "ok", attr[Fb][o.x])
                           ELSE r(S, "AttributeError", "")
Init == /\ box = [t \in Threads |-> Unset] /\ dflt = "0" /\ tgt = [t \in Threads |-> Unset] /\ tdef = "A"
        /\ attr = [o \in All |-> [a \in Attrs |-> IF o = Fb /\ a = "q" THEN "fq" ELSE Unset]] /\ h = <<>>
Next == /\ Len(h) < MaxHist
        /\ \E o \in Ops : LET r == Res(o) IN
             /\ box' = r.s.box /\ dflt' = r.s.dflt /\ tgt' = r.s.tgt /\ tdef' = r.s.tdef /\ attr' = r.s.attr
             /\ h' = Append(h, [o |-> o, r |-> [kind |-> r.kind, v |-> r.v]])
\* what one thread does to a thread-local box, no other thread sees
Isolated == [][Local => \A t \in Threads : (h' # h /\ h'[Len(h')].o.t # t /\ h'[Len(h')].o.op \notin {"setdefault", "deftarget"}) => (Content(t)' = Content(t) /\ Target(t)' = Target(t))]_<<box, dflt, tgt, tdef, attr, h>>
View == <<box, dflt, tgt, tdef, attr>>
Hist(o) == LET r == Res(o) IN [o |-> o, r |-> [kind |-> r.kind, v |-> r.v]]
EmitTable == Len(h) <= MaxHist => PrintT("@@" \o ToJson([local |-> Local, fb |-> Fallback, h |-> h, t |-> IF Len(h) = MaxHist THEN {} ELSE {Hist(o) : o \in Ops}]))
EmitHist == Len(h) = MaxHist => PrintT("@@" \o ToJson([local |-> Local, fb |-> Fallback, h |-> h]))
=============================================================================
