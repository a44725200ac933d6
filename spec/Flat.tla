-------------------------------- MODULE Flat --------------------------------
(* Removing nested list structure (flatten, flatten1, flatten_in) with a     *)
(* predicate that says which lists to remove. A tree is a leaf (q = "x") or  *)
(* a list/tuple (q = "l"/"t") of trees.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS W, Kinds, Top
VARIABLES c
RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>} ELSE LET T == TLCEval(SeqsUpTo(S, n - 1)) IN T \union {Append(s, x) : s \in {t \in T : Len(t) = n - 1}, x \in S}
Leaf == [q |-> "x", k |-> <<>>]
Nodes(S) == {[q |-> q, k |-> s] : q \in Kinds, s \in SeqsUpTo(S, W)}
T1 == {Leaf} \union Nodes({Leaf})
T2 == {Leaf} \union Nodes(T1)
Preds == {"all", "nested", "pair", "nonempty", "list"}
P(p, e) == CASE p = "all" -> TRUE
             [] p = "nested" -> \A i \in 1..Len(e.k) : e.k[i].q # "x"
             [] p = "pair" -> Len(e.k) = 2
             [] p = "nonempty" -> e.k # <<>>
             [] p = "list" -> e.q = "l"
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE Flatten(_, _)
Flatten(s, p) == Cat([i \in 1..Len(s) |-> IF s[i].q # "x" /\ P(p, s[i]) THEN Flatten(s[i].k, p) ELSE <<s[i]>>])
Flatten1(s, p) == Cat([i \in 1..Len(s) |-> IF s[i].q # "x" /\ P(p, s[i]) THEN s[i].k ELSE <<s[i]>>])
RECURSIVE FlattenIn(_, _)
FlattenIn(s, p) == Cat([i \in 1..Len(s) |-> IF s[i].q = "x" THEN <<s[i]>>
                                            ELSE IF P(p, s[i]) THEN FlattenIn(s[i].k, p)
                                            ELSE <<[q |-> s[i].q, k |-> FlattenIn(s[i].k, p)]>>])
Init == \E s \in SeqsUpTo(T2, Top), p \in Preds : c = [s |-> s, p |-> p]
Next == UNCHANGED c
RECURSIVE Leaves(_)
Leaves(s) == IF s = <<>> THEN 0 ELSE (IF Head(s).q = "x" THEN 1 ELSE Leaves(Head(s).k)) + Leaves(Tail(s))
\* no item is lost or duplicated, whatever the predicate
Inv == /\ Leaves(Flatten(c.s, c.p)) = Leaves(c.s) /\ Leaves(FlattenIn(c.s, c.p)) = Leaves(c.s) /\ Leaves(Flatten1(c.s, c.p)) = Leaves(c.s)
       /\ Flatten(Flatten(c.s, c.p), c.p) = Flatten(c.s, c.p)
       /\ (c.p = "all" => \A i \in 1..Len(Flatten(c.s, c.p)) : Flatten(c.s, c.p)[i].q = "x")
Emit == PrintT("@@" \o ToJson([c |-> c, flat |-> Flatten(c.s, c.p), one |-> Flatten1(c.s, c.p), deep |-> FlattenIn(c.s, c.p)]))
=============================================================================
