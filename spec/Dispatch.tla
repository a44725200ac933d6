------------------------------ MODULE Dispatch ------------------------------
(* Multiple dispatch (unpythonic.dispatch).                                  *)
(* State: the multimethods registered so far, in order. A call runs the most *)
(* recently registered multimethod whose signature accepts the arguments,    *)
(* in number and in the run-time types of all of them; if there is none,     *)
(* TypeError. For methods, the classes of the MRO are tried in order, each   *)
(* most recent first. Currying a generic function: exact match, then match   *)
(* with extra arguments, then partial match, else TypeError.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Sigs, MaxReg, Mode, OSigs, MaxP, Hier
VARIABLES reg,        \* registered signatures, in order
          oop         \* [class -> registered signatures]
vars == <<reg, oop>>

S(pos, opt, var) == [pos |-> pos, opt |-> opt, var |-> var]
\* classes: B < A, C < A, D < B, C; bool < int; BI is Union[B, int]; OB is Optional[B]
Supers(v) == CASE v = "a" -> {"A"} [] v = "b" -> {"A", "B", "BI", "OB"} [] v = "c" -> {"A", "C"} [] v = "d" -> {"A", "B", "C", "BI", "OB"}
               [] v = "i" -> {"int", "BI"} [] v = "t" -> {"int", "BI"} [] v = "n" -> {"OB"}
IsOf(v, T) == T = "Any" \/ T \in Supers(v)
Vals == {"a", "b", "c", "d", "i", "t", "n"}

Accepts(sig, args, named) ==
  LET n == Len(args)
      p == Len(sig.pos)
      least == IF sig.opt THEN p - 1 ELSE p
  IN /\ n >= least
     /\ sig.var = "" => n <= p
     /\ named => n <= p
     /\ \A i \in 1..n : IsOf(args[i], IF i <= p THEN sig.pos[i] ELSE sig.var)
     /\ sig.var = "" \/ n > p        \* an empty tuple has no element type

FirstFrom(seq, args, named, k) ==    \* most recently registered first
  LET I == {i \in 1..Len(seq) : Accepts(seq[i], args, named)}
  IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
ArgSeqs == {<<>>} \union {<<x>> : x \in Vals} \union {<<x, y>> : x \in Vals, y \in Vals}
Long == {<<x, y, z>> : x \in {"b", "i"}, y \in {"a", "d", "i"}, z \in {"b", "i", "n"}}

Classes == IF Hier = "chain" THEN {"P", "Q", "S"} ELSE {"P", "Q", "S", "T"}
Init == reg = <<>> /\ oop = [c \in Classes |-> <<>>]
Next == /\ Mode # "oop" /\ Len(reg) < MaxReg /\ \E s \in Sigs : reg' = Append(reg, s)
        /\ UNCHANGED oop
Emit == reg = <<>> \/ Mode # "fn" \/
  PrintT("@@" \o ToJson([reg |-> reg, table |-> {[a |-> a, named |-> nm, r |-> FirstFrom(reg, a, nm, 0)] : a \in ArgSeqs \union Long, nm \in BOOLEAN}]))

\* the newest acceptable one wins, and registering never changes which older one accepts
Override == [][\A a \in ArgSeqs : LET r == FirstFrom(reg, a, FALSE, 0) IN
                 FirstFrom(reg', a, FALSE, 0) \in {r, Len(reg')}]_vars

(* -------------------------------- methods ------------------------------ *)
ONext == \E c \in Classes, s \in OSigs :
           /\ Len(oop[c]) < (IF c = "P" THEN MaxP ELSE 1)
           /\ oop' = [oop EXCEPT ![c] = Append(@, s)]
           /\ UNCHANGED reg
\* "diamond": Q(P), T(P), S(Q, T); "vee": Q(P), T, S(Q, T)
Mro(c) == CASE c = "P" -> <<"P">> [] c = "Q" -> <<"Q", "P">> [] c = "T" -> IF Hier = "diamond" THEN <<"T", "P">> ELSE <<"T">>
            [] c = "S" -> CASE Hier = "chain" -> <<"S", "Q", "P">> [] Hier = "diamond" -> <<"S", "Q", "T", "P">> [] Hier = "vee" -> <<"S", "Q", "P", "T">>
RECURSIVE Look(_, _, _)
Look(ms, a, nm) == IF ms = <<>> THEN <<"", 0>>
                   ELSE LET i == FirstFrom(oop[Head(ms)], a, nm, 0) IN IF i > 0 THEN <<Head(ms), i>> ELSE Look(Tail(ms), a, nm)
HasAny(c) == \E i \in 1..Len(Mro(c)) : oop[Mro(c)[i]] # <<>>
OEmit == ~(\E c \in Classes : oop[c] # <<>>) \/
  PrintT("@@" \o ToJson([oop |-> oop, hier |-> Hier, table |-> {[c |-> c, a |-> a, named |-> nm, r |-> Look(Mro(c), a, nm)] :
     c \in {x \in Classes : HasAny(x)}, a \in {<<>>} \union {<<x>> : x \in {"a", "d", "i", "n"}} \union {<<x, y>> : x \in {"b", "i"}, y \in {"d", "i"}}, nm \in BOOLEAN}]))

(* ------------------------- currying a generic -------------------------- *)
TypesOk(sig, args) == \A i \in 1..Len(args) : i <= Len(sig.pos) => IsOf(args[i], sig.pos[i])
Least(sig) == IF sig.opt THEN Len(sig.pos) - 1 ELSE Len(sig.pos)
Newest(I) == CHOOSE i \in I : \A j \in I : j <= i
CAct(args) ==
  LET n == Len(args)
      ok == {i \in 1..Len(reg) : TypesOk(reg[i], args)}
      exact == {i \in ok : n >= Least(reg[i]) /\ n <= Len(reg[i].pos)}
      over == {i \in ok : n > Len(reg[i].pos)}
      part == {i \in ok : n < Least(reg[i])}
  IN IF exact # {} THEN <<"call", Newest(exact), n>>
     ELSE IF over # {} THEN LET k == Len(reg[Newest(over)].pos) IN <<"pass", FirstFrom(reg, SubSeq(args, 1, k), FALSE, 0), k>>
     ELSE IF part # {} THEN <<"keep", 0, n>>
     ELSE <<"err", 0, n>>
RECURSIVE CSteps(_, _, _)
CSteps(args, chunks, got) ==
  IF chunks = <<>> THEN got
  ELSE LET a == args \o Head(chunks)
           r == CAct(a)
       IN IF r[1] = "keep" THEN CSteps(a, Tail(chunks), Append(got, r)) ELSE Append(got, r)
Few == {"b", "c", "i", "n"}
Chunks == {<<<<x>>, <<y>>, <<z>>>> : x \in Few, y \in Few, z \in {"b", "i"}} \union {<<<<x, y>>, <<z>>>> : x \in Few, y \in Few, z \in {"b", "i"}}
          \union {<<<<x>>, <<y, z>>>> : x \in Few, y \in Few, z \in {"b", "i"}} \union {<<<<x, y, z>>>> : x \in Few, y \in Few, z \in {"b", "i"}}
CEmit == reg = <<>> \/ Mode # "curry" \/
  PrintT("@@" \o ToJson([curry |-> reg, table |-> {[chunks |-> ch, r |-> CSteps(<<>>, ch, <<>>)] : ch \in Chunks}]))
=============================================================================
