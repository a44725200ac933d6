------------------------------ MODULE Mogrify ------------------------------
(* mogrify(func, container): a recursive map over nested containers. A term  *)
(* is an atom or a container; every node has an identity. Mutable containers *)
(* are updated in place (and keep their identity), immutable ones are copied.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, MaxStack
VARIABLES st, n, done

Mut == {"list", "dict", "box", "tlbox", "deque", "view"}
Imm == {"tuple", "frozendict", "some", "namedtuple", "cons", "roview", "values", "proxy"}
\* containers of atoms only (their items must be hashable)
Sets == {"set", "frozenset", "keysview"}
Arity(k) == IF k \in {"box", "tlbox", "some"} THEN {1} ELSE IF k \in {"cons", "namedtuple"} THEN {2} ELSE 0..2

Atom(v) == [t |-> "atom", v |-> v, c |-> <<>>]
Init == st = <<>> /\ n = 0 /\ done = FALSE
Push == n < MaxOps /\ Len(st) < MaxStack /\ \E v \in 0..4 : st' = Append(st, Atom(v)) /\ n' = n + 1
Wrap == n < MaxOps /\ \E k \in Mut \union Imm \union Sets : \E a \in Arity(k) :
          /\ Len(st) >= a /\ (a = 0 => Len(st) < MaxStack)
          /\ LET c == SubSeq(st, Len(st) - a + 1, Len(st)) IN
             /\ (k \in Sets => \A i \in 1..a : c[i].t = "atom")
             /\ st' = Append(SubSeq(st, 1, Len(st) - a), [t |-> k, v |-> 0, c |-> c]) /\ n' = n + 1
Next == \/ ~done /\ (Push \/ Wrap) /\ UNCHANGED done
        \/ ~done /\ Len(st) = 1 /\ st[1].t # "atom" /\ done' = TRUE /\ UNCHANGED <<st, n>>

\* the function: distinct atoms can become equal, and some become falsy or None
Fn(v) == CASE v = 0 -> 0 [] v = 1 -> 10 [] v = 2 -> 10 [] v = 3 -> -1 [] v = 4 -> 0
RECURSIVE Mog(_), Copy(_), Calls(_)
\* afterwards, what the result shows
Mog(x) == IF x.t = "atom" THEN Atom(Fn(x.v))
          ELSE [t |-> IF x.t = "roview" THEN "list" ELSE IF x.t = "keysview" THEN "set" ELSE x.t, v |-> 0, c |-> [i \in 1..Len(x.c) |-> Mog(x.c[i])]]
\* afterwards, what the original shows: mutable containers are updated; immutable ones still hold the original items (mutable ones among them updated)
Copy(x) == IF x.t = "atom" THEN x
           ELSE IF x.t \in Mut THEN Mog(x)
           ELSE IF x.t = "set" THEN Mog(x)
           ELSE [x EXCEPT !.c = [i \in 1..Len(x.c) |-> Copy(x.c[i])]]
Calls(x) == IF x.t = "atom" THEN 1 ELSE IF x.t \in Sets THEN Cardinality({x.c[i].v : i \in 1..Len(x.c)}) ELSE LET RECURSIVE Sum(_) Sum(i) == IF i > Len(x.c) THEN 0 ELSE Calls(x.c[i]) + Sum(i + 1) IN Sum(1)
InPlace == done => (st[1].t \in Mut => Copy(st[1]) = Mog(st[1]))
EmitCase == done => PrintT("@@" \o ToJson([x |-> st[1], new |-> Mog(st[1]), old |-> Copy(st[1]), calls |-> Calls(st[1])]))
=============================================================================
