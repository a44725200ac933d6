------------------------------ MODULE TailMac -------------------------------
(* Return expressions under the tco, autoreturn and continuations macros.    *)
(* Two functions f, g of a counter n (and a user variable u) each return     *)
(*   base if n <= 0 else E                                                   *)
(* where E is built from data, calls with n - 1, and the compound forms whose *)
(* tail positions the macros recognize. The meaning of the program is that   *)
(* of plain Python with calls: the value, and the order in which data is     *)
(* evaluated. Values are the texts of Python literals.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSize, MaxN, Forms, Leaves
VARIABLES f, g, st, phase
vars == <<f, g, st, phase>>
Nd(t, v, k) == [t |-> t, v |-> v, k |-> k]
Leaf == {Nd("d", v, <<>>) : v \in {"None", "0", "False", "7"}} \union {Nd("c", v, <<>>) : v \in {"f", "g"}} \union {Nd(t, "", <<>>) : t \in {"n", "u", "x"}}
        \union (IF "it" \in Leaves THEN {Nd("it", "", <<>>)} ELSE {})
Arity == [t \in {"if", "and", "or", "and3", "or3", "let", "do", "dol", "aif", "cond", "cond2"} |->
          CASE t \in {"if", "aif", "and3", "or3", "cond"} -> 3 [] t = "cond2" -> 5 [] OTHER -> 2]
RECURSIVE Size(_)
Size(e) == IF e.k = <<>> THEN 1 ELSE 1 + (LET RECURSIVE Sum(_)
                                              Sum(q) == IF q = <<>> THEN 0 ELSE Size(Head(q)) + Sum(Tail(q)) IN Sum(e.k))
\* `it` is only meaningful in the branches of an aif
RECURSIVE ItOk(_, _)
ItOk(e, in) == CASE e.t = "it" -> in
                 [] e.t = "aif" -> ItOk(e.k[1], in) /\ ItOk(e.k[2], TRUE) /\ ItOk(e.k[3], TRUE)
                 [] OTHER -> \A i \in 1..Len(e.k) : ItOk(e.k[i], in)
RECURSIVE TailOk(_, _)   \* calls only in tail position
TailOk(e, tail) == CASE e.t = "c" -> tail
                     [] e.k = <<>> -> TRUE
                     [] e.t \in {"if", "aif", "cond"} -> TailOk(e.k[1], FALSE) /\ TailOk(e.k[2], tail) /\ TailOk(e.k[3], tail)
                     [] e.t = "cond2" -> TailOk(e.k[1], FALSE) /\ TailOk(e.k[2], tail) /\ TailOk(e.k[3], FALSE) /\ TailOk(e.k[4], tail) /\ TailOk(e.k[5], tail)
                     [] OTHER -> (\A i \in 1..(Len(e.k) - 1) : TailOk(e.k[i], FALSE)) /\ TailOk(e.k[Len(e.k)], tail)
RECURSIVE Calls(_)
Calls(e) == IF e.t = "c" THEN 1 ELSE LET RECURSIVE Sum(_)
                                         Sum(q) == IF q = <<>> THEN 0 ELSE Calls(Head(q)) + Sum(Tail(q)) IN Sum(e.k)

\* ----------------------------------------------------------------- building (postfix)
Init == f = <<>> /\ g = <<>> /\ st = <<>> /\ phase = "f"
Build == /\ phase \in {"f", "g"}
         /\ \/ Len(st) < 5 /\ \E l \in Leaf : st' = Append(st, l)
            \/ \E t \in Forms : LET a == Arity[t] IN Len(st) >= a /\ st' = Append(SubSeq(st, 1, Len(st) - a), Nd(t, "", SubSeq(st, Len(st) - a + 1, Len(st))))
         /\ (Len(st') > 0 => Size(st'[Len(st')]) <= MaxSize)
         /\ UNCHANGED <<f, g, phase>>
Done == /\ phase \in {"f", "g"} /\ Len(st) = 1 /\ Size(st[1]) >= 3 /\ ItOk(st[1], FALSE) /\ Calls(st[1]) \in 1..3
        /\ IF phase = "f" THEN f' = st /\ phase' = "g" /\ g' = g ELSE g' = st /\ phase' = "run" /\ f' = f
        /\ st' = <<>>
Next == Build \/ Done

\* ----------------------------------------------------------------- meaning
Truthy(v) == v \notin {"None", "0", "False"}
Base == [h \in {"f", "g"} |-> IF h = "f" THEN "'fb'" ELSE "None"]
R(v, l) == [v |-> v, l |-> l]
\* Modes: "plain" (no tail calls: autoreturn alone), "tco" (where each leaf is a call too), "cont" (where a leaf is not a call).
\* In tail position, an and-chain that ends in a call or in another compound form gives False when one of the other items
\* is false: a value of the rest of the chain has no place of its own in the expansion.
IsCallish(e, mode) == IF e.k = <<>> THEN e.t = "c" \/ mode = "tco" ELSE TRUE
RECURSIVE Ev(_, _, _, _, _, _)
Call(h, n, mode) == IF n <= 0 THEN R(Base[h], <<<<Base[h], n>>>>) ELSE Ev(IF h = "f" THEN f[1] ELSE g[1], n, "'gx'", "", mode, TRUE)
Ev(e, n, x, it, mode, tail) ==
  CASE e.t = "d" -> R(e.v, <<<<e.v, n>>>>)
    [] e.t = "n" -> R(ToString(n), <<<<ToString(n), n>>>>)
    [] e.t = "u" -> R("'U'", <<<<"'U'", n>>>>)
    [] e.t = "x" -> R(x, <<<<x, n>>>>)
    [] e.t = "it" -> R(it, <<<<it, n>>>>)
    [] e.t = "c" -> Call(e.v, n - 1, mode)
    [] e.t \in {"if", "cond"} -> LET a == TLCEval(Ev(e.k[1], n, x, it, mode, FALSE))
                                     b == TLCEval(Ev(IF Truthy(a.v) THEN e.k[2] ELSE e.k[3], n, x, it, mode, tail)) IN R(b.v, a.l \o b.l)
    [] e.t = "aif" -> LET a == TLCEval(Ev(e.k[1], n, x, it, mode, FALSE))
                          b == TLCEval(Ev(IF Truthy(a.v) THEN e.k[2] ELSE e.k[3], n, x, a.v, mode, tail)) IN R(b.v, a.l \o b.l)
    [] e.t = "cond2" -> LET a == TLCEval(Ev(e.k[1], n, x, it, mode, FALSE)) IN
                        IF Truthy(a.v) THEN LET b == TLCEval(Ev(e.k[2], n, x, it, mode, tail)) IN R(b.v, a.l \o b.l)
                        ELSE LET b == TLCEval(Ev(Nd("cond", "", SubSeq(e.k, 3, 5)), n, x, it, mode, tail)) IN R(b.v, a.l \o b.l)
    [] e.t \in {"and", "or", "and3", "or3"} ->
         LET conj == e.t \in {"and", "and3"}
             go(a) == Truthy(a.v) = conj
             stop(a) == IF conj /\ tail /\ mode # "plain" /\ IsCallish(e.k[Len(e.k)], mode) THEN R("False", a.l) ELSE a
             a == TLCEval(Ev(e.k[1], n, x, it, mode, FALSE)) IN
         IF ~go(a) THEN stop(a)
         ELSE LET b == TLCEval(Ev(e.k[2], n, x, it, mode, tail /\ Len(e.k) = 2))  ab == R(b.v, a.l \o b.l) IN
              IF Len(e.k) = 2 THEN ab ELSE IF ~go(b) THEN stop(ab)
              ELSE LET d == TLCEval(Ev(e.k[3], n, x, it, mode, tail)) IN R(d.v, ab.l \o d.l)
    [] e.t = "do" -> LET a == TLCEval(Ev(e.k[1], n, x, it, mode, FALSE))  b == TLCEval(Ev(e.k[2], n, x, it, mode, tail)) IN R(b.v, a.l \o b.l)
    [] e.t \in {"let", "dol"} -> LET a == TLCEval(Ev(e.k[1], n, x, it, mode, FALSE))  b == TLCEval(Ev(e.k[2], n, a.v, it, mode, tail)) IN R(b.v, a.l \o b.l)
Deep == TailOk(f[1], TRUE) /\ TailOk(g[1], TRUE)
Results(mode) == [i \in 1..MaxN |-> [f |-> Call("f", i - 1, mode), g |-> Call("g", i - 1, mode)]]
All == [plain |-> Results("plain"), tco |-> Results("tco"), cont |-> Results("cont")]
Emit == phase = "run" => PrintT("@@" \o ToJson([f |-> f[1], g |-> g[1], deep |-> Deep, r |-> All]))
=============================================================================
