-------------------------------- MODULE Env --------------------------------
(* Environments: unpythonic.env and unpythonic.assignonce.                   *)
(* State: the ordered bindings, and whether the set of names is frozen.      *)
(* Every state is emitted with the history that reaches it and, for every    *)
(* operation, the outcome and the bindings afterwards.                       *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS Ids, Vals, Class, MaxHist
VARIABLES b, fin, hist
vars == <<b, fin, hist>>
Reserved == {"set", "items"}                   \* stand for all names the class needs for itself
Bad == {"not an id"}
AllNames == Ids \union Reserved \union Bad

Has(n) == \E i \in 1..Len(b) : b[i][1] = n
Pos(n) == CHOOSE i \in 1..Len(b) : b[i][1] = n
Put(bb, n, v) == IF \E i \in 1..Len(bb) : bb[i][1] = n
                 THEN [i \in 1..Len(bb) |-> IF bb[i][1] = n THEN <<n, v>> ELSE bb[i]]
                 ELSE Append(bb, <<n, v>>)
Del(n) == LET p == Pos(n) IN [i \in 1..(Len(b) - 1) |-> IF i < p THEN b[i] ELSE b[i + 1]]

\* outcome: what comes back ("none", "ret" v, an exception), bindings, frozen
Out(kind, v, bb, f) == [kind |-> kind, v |-> v, b |-> bb, fin |-> f]
Err(e) == Out(e, "", b, fin)
NameErr(n) == IF n \in Reserved THEN "AttributeError" ELSE "ValueError"
NewErr(n) == IF n \in Reserved THEN "AttributeError" ELSE IF fin /\ ~Has(n) THEN "AttributeError" ELSE "ValueError"

Assign(n, v, kind, r) ==                          \* plain binding: e.n = v, e["n"] = v
  IF n \notin Ids THEN Err(NewErr(n))
  ELSE IF Has(n) /\ Class = "assignonce" THEN Err("AttributeError")
  ELSE IF ~Has(n) /\ fin THEN Err("AttributeError")
  ELSE Out(kind, r, Put(b, n, v), fin)
Rebind(n, v, kind, r) ==                          \* e.set(n, v), e << (n, v)
  IF ~Has(n) THEN Err("AttributeError") ELSE Out(kind, r, Put(b, n, v), fin)

Ops ==
  [op : {"setattr", "setitem", "set", "lshift", "setdefault", "update", "updatepairs", "updatekw"}, n : AllNames, v : Vals]
  \union [op : {"getattr", "getitem"}, n : Ids \union Bad, v : {""}]
  \union [op : {"get", "contains", "delattr", "delitem"}, n : Ids \union Bad, v : {""}]
  \union [op : {"pop", "popdefault"}, n : Ids, v : {""}]
  \union [op : {"popitem", "clear", "finalize", "exit", "len", "names", "items", "values", "eq", "repickle", "copy", "rector"}, n : {""}, v : {""}]
  \union [op : {"update2"}, n : Ids, v : Vals]       \* two names at once: n and the others

Others(n) == Ids \ {n}
Put2(bb, n, v) == LET o == CHOOSE x \in Others(n) : TRUE IN Put(Put(bb, n, v), o, v)
Outcome(o) ==
  LET n == o.n  v == o.v IN
  CASE o.op \in {"setattr", "setitem"} -> Assign(n, v, "none", "")
    [] o.op = "set" -> Rebind(n, v, "ret", v)
    [] o.op = "lshift" -> Rebind(n, v, "self", "")
    [] o.op \in {"update", "updatepairs", "updatekw"} -> Assign(n, v, "none", "")
    [] o.op = "update2" ->
         IF fin /\ \E x \in Ids : ~Has(x) THEN Err("AttributeError")
         ELSE IF Class = "assignonce" /\ \E x \in Ids : Has(x) THEN Err("skip")
         ELSE Out("none", "", Put2(b, n, v), fin)
    [] o.op = "setdefault" -> IF Has(n) THEN Out("ret", b[Pos(n)][2], b, fin) ELSE Assign(n, v, "ret", v)
    [] o.op \in {"getattr", "getitem"} -> IF n \notin Ids THEN Err("ValueError") ELSE IF Has(n) THEN Out("ret", b[Pos(n)][2], b, fin) ELSE Err("AttributeError")
    [] o.op = "get" -> Out("ret", IF Has(n) THEN b[Pos(n)][2] ELSE "default", b, fin)
    [] o.op = "contains" -> Out("ret", Has(n), b, fin)
    [] o.op \in {"delattr", "delitem"} -> IF n \notin Ids THEN Err("ValueError") ELSE IF fin THEN Err("TypeError")
                                          ELSE IF ~Has(n) THEN Err("AttributeError") ELSE Out("none", "", Del(n), fin)
    [] o.op = "pop" -> IF fin THEN Err("TypeError") ELSE IF ~Has(n) THEN Err("KeyError") ELSE Out("ret", b[Pos(n)][2], Del(n), fin)
    [] o.op = "popdefault" -> IF fin THEN Err("TypeError") ELSE IF ~Has(n) THEN Out("ret", "default", b, fin) ELSE Out("ret", b[Pos(n)][2], Del(n), fin)
    [] o.op = "popitem" -> IF fin THEN Err("TypeError") ELSE IF b = <<>> THEN Err("KeyError")
                           ELSE Out("ret", b[Len(b)], SubSeq(b, 1, Len(b) - 1), fin)
    [] o.op = "clear" -> IF fin THEN Err("TypeError") ELSE Out("none", "", <<>>, fin)
    [] o.op = "finalize" -> Out("none", "", b, TRUE)
    [] o.op = "exit" -> Out("none", "", <<>>, fin)              \* leaving a with block forgets all bindings
    [] o.op = "len" -> Out("ret", Len(b), b, fin)
    [] o.op = "names" -> Out("ret", [i \in 1..Len(b) |-> b[i][1]], b, fin)
    [] o.op = "items" -> Out("ret", b, b, fin)
    [] o.op = "values" -> Out("ret", [i \in 1..Len(b) |-> b[i][2]], b, fin)
    [] o.op \in {"eq", "repickle", "copy"} -> Out("ret", TRUE, b, fin)
    [] o.op = "rector" -> Out("ret", TRUE, b, fin)              \* Class( **bindings ) is an equal environment

IsErr(r) == r.kind \in {"AttributeError", "TypeError", "KeyError", "ValueError", "skip"}
Init == b = <<>> /\ fin = FALSE /\ hist = <<>>
Step(o) == LET r == Outcome(o) IN r.kind # "skip" /\ b' = r.b /\ fin' = r.fin /\ hist' = Append(hist, [o |-> o, r |-> r])
Next == Len(hist) < MaxHist /\ \E o \in Ops : Step(o)

\* What the environments promise
OnlyIdentifiers == \A i \in 1..Len(b) : b[i][1] \in Ids
NoDuplicates == \A i, j \in 1..Len(b) : i # j => b[i][1] # b[j][1]
Names == {b[i][1] : i \in 1..Len(b)}
FrozenNames == [][fin => (fin' /\ (Names' = Names \/ b' = <<>>))]_vars
ErrorsChangeNothing == \A o \in Ops : LET r == Outcome(o) IN IsErr(r) => r.b = b /\ r.fin = fin
AssignOnce == Class = "assignonce" => \A o \in Ops : o.op \in {"setattr", "setitem", "update", "setdefault"} =>
                 LET r == Outcome(o) IN \A i \in 1..Len(b) : r.b[i] = b[i]

View == <<b, fin>>
Table == LET q == SetToSeq({x \in Ops : Outcome(x).kind # "skip"}) IN [i \in 1..Len(q) |-> [o |-> q[i], r |-> Outcome(q[i])]]
EmitTable == PrintT("@@" \o ToJson([cls |-> Class, h |-> hist, t |-> Table]))
EmitHist == Len(hist) = MaxHist => PrintT("@@" \o ToJson([cls |-> Class, h |-> hist, t |-> <<>>]))
=============================================================================
