------------------------------- MODULE Intern -------------------------------
(* Symbols (interned and generated) and singletons. A key has at most one    *)
(* live object: the constructor of an interned symbol, unpickling and        *)
(* copying give that one if it is alive; the constructor of a singleton then *)
(* refuses. gensym never gives an object that existed before. Unpickling     *)
(* restores the pickled attributes. An object lives while it is referred to. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
CONSTANTS Syms, Singles, Slots, Blobs, MaxHist
VARIABLES ref, obj, blob, gen, hist, tid, l
vars == <<ref, obj, blob, gen, hist, tid, l>>
\* ref: slot -> object number or 0; obj: sequence of [key, v]; blob: sequence of [key, v]; gen: generated symbols so far
None == [key |-> "", v |-> 0]
Live(k) == {i \in 1..Len(obj) : obj[i].key = k /\ \E s \in Slots : ref[s] = i}
The(k) == CHOOSE i \in Live(k) : TRUE
\* what each slot shows: key, attribute, and the first slot with the same object
Show(rf, ob) == [s \in Slots |-> IF rf[s] = 0 THEN <<"", 0, 0>> ELSE <<ob[rf[s]].key, ob[rf[s]].v, CHOOSE q \in Slots : rf[q] = rf[s] /\ \A p \in Slots : rf[p] = rf[s] => q <= p>>]
Out(kind, rf, ob, bl, g) == [kind |-> kind, v |-> "", show |-> Show(rf, ob), ref |-> rf, obj |-> ob, blob |-> bl, gen |-> g]
Same(kind) == Out(kind, ref, obj, blob, gen)
\* slot s gets the object of key k, made with attribute v if there is none (and given it if force)
Give(s, k, v, force, g) == IF Live(k) # {} THEN Out("none", [ref EXCEPT ![s] = The(k)], IF force THEN [obj EXCEPT ![The(k)].v = v] ELSE obj, blob, g)
                           ELSE Out("none", [ref EXCEPT ![s] = Len(obj) + 1], Append(obj, [key |-> k, v |-> v]), blob, g)
Op(op, s, k, n) == [op |-> op, s |-> s, k |-> k, n |-> n]
Ops == {Op("make", s, k, 0) : s \in Slots, k \in Syms \union {"gensym"}} \union {Op("make", s, k, n) : s \in Slots, k \in Singles, n \in {0, 1}}
       \union {Op("drop", s, "", 0) : s \in Slots} \union {Op("set", s, "", n) : s \in Slots, n \in {0, 2}}
       \union {Op(c, s, "", t) : c \in {"copy", "deepcopy", "assign"}, s \in Slots, t \in Slots} \union {Op(c, s, "", b) : c \in {"dumps", "loads"}, s \in Slots, b \in 1..Blobs}
Outcome(o) ==
  CASE o.op = "make" -> (IF o.k = "gensym" THEN Out("none", [ref EXCEPT ![o.s] = Len(obj) + 1], Append(obj, [key |-> "g" \o ToString(gen + 1), v |-> 0]), blob, gen + 1)
                         ELSE IF o.k \in Syms THEN Give(o.s, o.k, 0, FALSE, gen)
                         ELSE IF Live(o.k) # {} THEN Same("TypeError") ELSE Give(o.s, o.k, o.n, TRUE, gen))
    [] o.op = "drop" -> Out("none", [ref EXCEPT ![o.s] = 0], obj, blob, gen)
    [] o.op = "set" -> IF ref[o.s] = 0 THEN Same("skip") ELSE Out("none", ref, [obj EXCEPT ![ref[o.s]].v = o.n], blob, gen)
    [] o.op \in {"copy", "deepcopy", "assign"} -> IF ref[o.n] = 0 THEN Same("skip") ELSE Out("none", [ref EXCEPT ![o.s] = ref[o.n]], obj, blob, gen)
    [] o.op = "dumps" -> IF ref[o.s] = 0 THEN Same("skip") ELSE Out("none", ref, obj, [blob EXCEPT ![o.n] = obj[ref[o.s]]], gen)
    [] o.op = "loads" -> IF blob[o.n].key = "" THEN Same("skip") ELSE Give(o.s, blob[o.n].key, blob[o.n].v, TRUE, gen)
Init == ref = [s \in Slots |-> 0] /\ obj = <<>> /\ blob = [b \in 1..Blobs |-> None] /\ gen = 0 /\ hist = <<>> /\ tid = 0 /\ l = 0
Next == Len(hist) < MaxHist /\ UNCHANGED <<tid, l>> /\ \E o \in Ops : LET r == Outcome(o) IN
          r.kind # "skip" /\ ref' = r.ref /\ obj' = r.obj /\ blob' = r.blob /\ gen' = r.gen /\ hist' = Append(hist, [o |-> o, r |-> [kind |-> r.kind, v |-> r.v, show |-> r.show]])
\* ------------------------------------------------------------- promises
OneLive == \A k \in {obj[i].key : i \in 1..Len(obj)} : Cardinality(Live(k)) <= 1
Identity == \A s, t \in Slots : (ref[s] # 0 /\ ref[t] # 0) => ((ref[s] = ref[t]) <=> (obj[ref[s]].key = obj[ref[t]].key))
View == <<Show(ref, obj), blob>>
Table == LET q == SetToSeq({x \in Ops : Outcome(x).kind # "skip"}) IN [i \in 1..Len(q) |-> [o |-> q[i], r |-> LET r == Outcome(q[i]) IN [kind |-> r.kind, v |-> r.v, show |-> r.show]]]
EmitTable == PrintT("@@" \o ToJson([h |-> hist, t |-> Table]))
EmitHist == Len(hist) = MaxHist => PrintT("@@" \o ToJson([h |-> hist, t |-> <<>>]))
(* -------------------------- concurrent use ------------------------------- *)
\* events: call t op | ret t r. Each thread holds what it got last in a slot of its own, and the threads' objects are compared through their number.
\* A call takes effect at one instant; what is dropped is dropped at one instant.
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid][l + 1]
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 0 /\ ref = [t \in {} |-> 0] /\ obj = <<>> /\ blob = [t \in {} |-> 0] /\ gen = 0 /\ hist = <<>>
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
\* obj: sequence of the real objects' serial numbers ("" = not seen yet), one entry per specification object; blob: thread -> pending operation
TLive(k) == {i \in 1..Len(obj) : obj[i].key = k /\ \E t \in DOMAIN ref : ref[t] = i}
TCall == Ev.e = "call" /\ blob' = Put(blob, Ev.t, [op |-> Ev.op, k |-> Ev.k, got |-> -1]) /\ UNCHANGED <<ref, obj>> /\ l' = l + 1
TTake == \E t \in DOMAIN blob : /\ blob[t].got = -1
           /\ LET k == blob[t].k  lv == TLive(k)  res == IF blob[t].op = "drop" THEN 0 ELSE IF blob[t].op = "new" /\ lv # {} THEN -2 ELSE IF lv # {} THEN CHOOSE i \in lv : TRUE ELSE Len(obj) + 1 IN
                /\ blob' = [blob EXCEPT ![t].got = res]
                /\ ref' = IF res = -2 THEN ref ELSE Put(ref, t, res)
                /\ obj' = IF res > Len(obj) THEN Append(obj, [key |-> k, v |-> ""]) ELSE obj
           /\ l' = l
TRet == /\ Ev.e = "ret" /\ Ev.t \in DOMAIN blob /\ blob[Ev.t].got # -1
        /\ LET g == blob[Ev.t].got IN
             /\ CASE g = 0 -> Ev.r = "" /\ obj' = obj
                  [] g = -2 -> Ev.r = "TypeError" /\ obj' = obj
                  [] OTHER -> /\ Ev.r \notin {"", "TypeError"}
                              /\ \/ obj[g].v = Ev.r /\ obj' = obj
                                 \/ obj[g].v = "" /\ (\A i \in 1..Len(obj) : obj[i].v # Ev.r) /\ obj' = [obj EXCEPT ![g].v = Ev.r]
        /\ blob' = [t \in DOMAIN blob \ {Ev.t} |-> blob[t]] /\ UNCHANGED ref /\ l' = l + 1
TraceNext == l < Len(Traces[tid]) /\ UNCHANGED <<tid, gen, hist>> /\ (TCall \/ TTake \/ TRet)
TraceEmit == PrintT("@@" \o ToJson([t |-> tid, n |-> l]))
=============================================================================
