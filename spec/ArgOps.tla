------------------------------- MODULE ArgOps -------------------------------
(* Function combinators that rearrange or transform arguments: flip, rotate, *)
(* tokth/to1st/to2nd/tolast/to, apply, identity, const, withself, and the    *)
(* short-circuiting andf, orf, notf.                                         *)
(* A case is one state; its expected outcome is a function of the state.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxN, MaxSpecs, MaxTerms
VARIABLES c
Args(n) == [i \in 1..n |-> <<i>>]              \* argument i, and the functions applied to it so far
Ks == (0 - MaxN - 1)..(MaxN + 1)
RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>} ELSE LET T == SeqsUpTo(S, n - 1) IN T \union {Append(s, x) : s \in {t \in T : Len(t) = n - 1}, x \in S}

Init ==
  \/ \E n \in 0..MaxN, kw \in BOOLEAN : c = [op |-> "flip", n |-> n, ks |-> <<>>, kw |-> kw, terms |-> <<>>]
  \/ \E n \in 0..MaxN, kw \in BOOLEAN, k \in Ks : c = [op |-> "rotate", n |-> n, ks |-> <<k>>, kw |-> kw, terms |-> <<>>]
  \/ \E n \in 0..MaxN, kw \in BOOLEAN, ks \in SeqsUpTo(Ks, MaxSpecs) \ {<<>>} : c = [op |-> "to", n |-> n, ks |-> ks, kw |-> kw, terms |-> <<>>]
  \/ \E n \in 0..MaxN, kw \in BOOLEAN, k \in 0..MaxN : k <= n /\ c = [op |-> "apply", n |-> n, ks |-> <<k>>, kw |-> kw, terms |-> <<>>]
  \/ \E n \in 0..MaxN, kw \in BOOLEAN, o \in {"identity", "const", "withself"} : c = [op |-> o, n |-> n, ks |-> <<>>, kw |-> kw, terms |-> <<>>]
  \/ \E ts \in SeqsUpTo({"t", "f", "n"}, MaxTerms), o \in {"and", "or"}, n \in 0..1 : c = [op |-> o, n |-> n, ks |-> <<>>, kw |-> FALSE, terms |-> ts]
Next == UNCHANGED c

InRange(k, n) == 0 - n <= k /\ k < n
RECURSIVE ToAll(_, _, _)
\* <<args, applications made>> or an error
ToAll(args, ks, i) ==
  IF i > Len(ks) THEN [e |-> "", a |-> args, m |-> i - 1]
  ELSE IF Len(args) = 0 THEN [e |-> "TypeError", a |-> <<>>, m |-> i - 1]
  ELSE IF ~InRange(ks[i], Len(args)) THEN [e |-> "IndexError", a |-> <<>>, m |-> i - 1]
  ELSE LET j == (ks[i] % Len(args)) + 1 IN ToAll([args EXCEPT ![j] = Append(@, 100 + i)], ks, i + 1)

FirstIdx(S) == CHOOSE i \in S : \A j \in S : i <= j
Expected ==
  LET n == c.n
      a == Args(n)
      ok(x) == [e |-> "", a |-> x, m |-> 0]
      err(x) == [e |-> x, a |-> <<>>, m |-> 0]
  IN CASE c.op = "flip" -> ok([i \in 1..n |-> a[n + 1 - i]])
       [] c.op = "rotate" -> IF n = 0 THEN err("TypeError") ELSE IF ~InRange(c.ks[1], n) THEN err("IndexError")
                             ELSE ok([i \in 1..n |-> a[((i - 1 + c.ks[1]) % n) + 1]])
       [] c.op = "to" -> ToAll(a, c.ks, 1)
       [] c.op \in {"apply", "identity", "const", "withself"} -> ok(a)
       [] c.op = "and" -> LET S == {i \in 1..Len(c.terms) : c.terms[i] # "t"} IN
                          [e |-> IF S = {} THEN (IF c.terms = <<>> THEN "True" ELSE "term") ELSE "False", a |-> <<>>,
                           m |-> IF S = {} THEN Len(c.terms) ELSE FirstIdx(S)]
       [] c.op = "or" -> LET S == {i \in 1..Len(c.terms) : c.terms[i] = "t"} IN
                         [e |-> IF S = {} THEN "False" ELSE "term", a |-> <<>>, m |-> IF S = {} THEN Len(c.terms) ELSE FirstIdx(S)]
Emit == PrintT("@@" \o ToJson([c |-> c, r |-> Expected]))
=============================================================================
