------------------------------- MODULE LList -------------------------------
(* Cons cells, linked lists and trees (unpythonic.llist). A case is a state. *)
(* A tree is <<"a", name>> (an atom, nil included) or <<"c", car, cdr>>.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, MaxLists, MaxLen
VARIABLES c
A(n) == <<"a", n>>
C(x, y) == <<"c", x, y>>
Nil == A("nil")
Atoms == {A("1"), A("2"), Nil}
RECURSIVE Trees(_)
Trees(d) == IF d = 0 THEN Atoms ELSE LET T == TLCEval(Trees(d - 1)) IN T \union {C(x, y) : x \in T, y \in T}
IsC(t) == t[1] = "c"
RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>} ELSE LET T == SeqsUpTo(S, n - 1) IN T \union {Append(s, x) : s \in {t \in T : Len(t) = n - 1}, x \in S}

\* the spine: elements, and what the last cdr is
RECURSIVE Spine(_)
Spine(t) == IF ~IsC(t) THEN <<>> ELSE <<t[2]>> \o Spine(t[3])
RECURSIVE End(_)
End(t) == IF ~IsC(t) THEN t ELSE End(t[3])
Proper(t) == End(t) = Nil
RECURSIVE Tails(_)
Tails(t) == IF ~IsC(t) THEN <<>> ELSE <<t>> \o Tails(t[3])
RECURSIVE Leaves(_)
Leaves(t) == IF IsC(t) THEN Leaves(t[2]) \o Leaves(t[3]) ELSE <<t>>
RECURSIVE Leaves2(_)
Leaves2(t) == IF IsC(t) THEN Leaves2(t[2]) \o (IF t[3] = Nil THEN <<>> ELSE Leaves2(t[3])) ELSE <<t>>
RECURSIVE FromSeq(_)
FromSeq(s) == IF s = <<>> THEN Nil ELSE C(Head(s), FromSeq(Tail(s)))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* c[ad]+r: the letters apply from right to left; "err" where there is no cell
RECURSIVE Access(_, _)
Access(path, t) == IF path = <<>> THEN t
                   ELSE IF ~IsC(t) THEN A("err")
                   ELSE Access(SubSeq(path, 1, Len(path) - 1), IF path[Len(path)] = "a" THEN t[2] ELSE t[3])
Paths == SeqsUpTo({"a", "d"}, 4) \ {<<>>}
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
RECURSIVE Repr(_)
Repr(t) == IF ~IsC(t) THEN t[2]
           ELSE IF Proper(t) THEN LET sp == Spine(t) IN "ll(" \o Join([i \in 1..Len(sp) |-> Repr(sp[i])], ", ") \o ")"
           ELSE "cons(" \o Repr(t[2]) \o ", " \o Repr(t[3]) \o ")"

ToCell(s) == FromSeq(s)
RECURSIVE Cat(_)
Cat(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls) \o Cat(Tail(ls))
MinLen(ls) == CHOOSE n \in 0..MaxLen : (\E i \in 1..Len(ls) : Len(ls[i]) = n) /\ \A i \in 1..Len(ls) : Len(ls[i]) >= n

Elems == {A("1"), A("2"), C(A("1"), Nil)}
Init == \/ \E t \in {x \in Trees(Depth) : IsC(x)} : c = [f |-> "tree", t |-> t]
        \/ \E n \in 1..MaxLists : \E ls \in [1..n -> SeqsUpTo(Elems, MaxLen)] : c = [f |-> "lists", ls |-> ls]
Next == UNCHANGED c
Pool == {x \in Trees(1) : IsC(x)} \union {C(A("1"), C(A("2"), y)) : y \in Atoms} \union {C(C(A("1"), Nil), Nil)}
Expected ==
  IF c.f = "tree" THEN
    [proper |-> Proper(c.t), spine |-> Spine(c.t), tails |-> Tails(c.t), leaves |-> Leaves(c.t), leaves2 |-> Leaves2(c.t), single |-> ~IsC(c.t[3]) /\ c.t[3] # Nil,
     last |-> End(c.t), acc |-> {[p |-> p, v |-> Access(p, c.t)] : p \in Paths}, repr |-> Repr(c.t), pool |-> {[t |-> p, eq |-> p = c.t] : p \in Pool}]
  ELSE [cat |-> FromSeq(Cat(c.ls)), rev |-> [i \in 1..Len(c.ls) |-> FromSeq(Rev(c.ls[i]))], make |-> [i \in 1..Len(c.ls) |-> FromSeq(c.ls[i])],
        zip |-> FromSeq([k \in 1..MinLen(c.ls) |-> FromSeq([i \in 1..Len(c.ls) |-> c.ls[i][k]])])]
Emit == PrintT("@@" \o ToJson([c |-> c, r |-> Expected]))
=============================================================================
