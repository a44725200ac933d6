-------------------------------- MODULE Amb --------------------------------
(* Nondeterministic evaluation: forall with choice, insist and deny, in the  *)
(* function form and the macro form. A program is a sequence of lines; the   *)
(* meaning is the depth-first enumeration of all choices, each branch ending *)
(* at the first line that gives no item. What is observed: the order of all  *)
(* evaluations, the tuple of results, or the error.                          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Names, MaxLen, Kinds
VARIABLES prog, done

Vals == {0, 1, 2}
\* what a line evaluates
Consts == {[k |-> "const", n |-> "", m |-> "", v |-> 0]}
Lists  == {[k |-> "list", n |-> "", m |-> "", v |-> i] : i \in 0..3}
OfName == [k : {"ref", "range", "div", "insist", "deny", "typeerr", "pair"}, n : Names, m : {""}, v : {0}]
OfTwo  == [k : {"less", "tup"}, n : Names, m : Names, v : {0}]
Gens   == {[k |-> "gen", n |-> "", m |-> "", v |-> i] : i \in 0..1}
Expr   == {e \in Consts \union Lists \union OfName \union OfTwo \union Gens : e.k \in Kinds}
Line   == [b : Names \union {""}, e : Expr]

\* the items of list constant i
ListOf(i) == CASE i = 0 -> <<>> [] i = 1 -> <<0>> [] i = 2 -> <<2, 0, 1>> [] i = 3 -> <<1, 1>>
Up(n) == [i \in 1..n |-> i - 1]
\* value of an expression: an item ("item"), several items ("many"), or an error
EV(e, env) ==
  LET x == IF e.n = "" THEN 0 ELSE env[e.n]
      y == IF e.m = "" THEN 0 ELSE env[e.m]
      Bad == (e.n # "" /\ x = -1) \/ (e.m # "" /\ y = -1)
  IN IF Bad THEN [t |-> "err", s |-> <<>>, v |-> "NameError"]
     ELSE CASE e.k = "const" -> [t |-> "item", s |-> <<0>>, v |-> ""]
       [] e.k = "list" -> [t |-> "many", s |-> ListOf(e.v), v |-> ""]
       [] e.k = "ref" -> [t |-> "item", s |-> <<x>>, v |-> ""]
       [] e.k = "range" -> [t |-> "many", s |-> Up(x), v |-> ""]
       [] e.k = "pair" -> [t |-> "many", s |-> <<x, 2 - x>>, v |-> ""]
       [] e.k = "div" -> IF x = 0 THEN [t |-> "err", s |-> <<>>, v |-> "ZeroDivisionError"] ELSE [t |-> "item", s |-> <<2 \div x>>, v |-> ""]
       [] e.k = "typeerr" -> IF x = 1 THEN [t |-> "err", s |-> <<>>, v |-> "TypeError"] ELSE [t |-> "item", s |-> <<x>>, v |-> ""]
       [] e.k = "insist" -> [t |-> "guard", s |-> IF x # 0 THEN <<1>> ELSE <<>>, v |-> ""]
       [] e.k = "deny" -> [t |-> "guard", s |-> IF x # 0 THEN <<>> ELSE <<1>>, v |-> ""]
       [] e.k = "less" -> [t |-> "guard", s |-> IF x < y THEN <<1>> ELSE <<>>, v |-> ""]
       [] e.k = "tup" -> [t |-> "many", s |-> <<x, y>>, v |-> ""]
       [] e.k = "gen" -> IF e.v = 0 THEN [t |-> "many", s |-> <<1, 0>>, v |-> ""] ELSE [t |-> "err", s |-> <<>>, v |-> "TypeError"]
Envs0 == [n \in Names |-> -1]

\* accumulator: log of evaluated lines, results, error
RECURSIVE Run(_, _, _, _), Each(_, _, _, _, _)
Run(p, i, env, acc) ==
  LET r == EV(p[i].e, env)
      a == [acc EXCEPT !.log = Append(@, i)]
  IN IF r.t = "err" THEN [a EXCEPT !.err = r.v]
     ELSE IF i = Len(p)
       THEN \* the last line describes one item of the result; a guard adds its own items
            IF r.t = "guard" THEN [a EXCEPT !.res = @ \o [j \in 1..Len(r.s) |-> <<r.s[j]>>]]
            ELSE [a EXCEPT !.res = Append(@, IF r.t = "item" THEN <<r.s[1]>> ELSE <<-1>> \o r.s)]
       ELSE Each(p, i, env, r.s, a)
Each(p, i, env, s, acc) ==
  IF s = <<>> \/ acc.err # "" THEN acc
  ELSE LET env2 == IF p[i].b = "" THEN env ELSE [env EXCEPT ![p[i].b] = s[1]]
       IN Each(p, i, env, Tail(s), TLCEval(Run(p, i + 1, env2, acc)))
Meaning(p) == Run(p, 1, Envs0, [log |-> <<>>, res |-> <<>>, err |-> ""])

\* independent of the evaluator: the results of a choice over a concatenation are the concatenation of the results
Init == prog = <<>> /\ done = FALSE
Next == /\ ~done
        /\ \/ /\ Len(prog) < MaxLen /\ \E l \in Line : prog' = Append(prog, l) /\ UNCHANGED done
           \/ prog # <<>> /\ prog[Len(prog)].b = "" /\ prog[Len(prog)].e.k # "gen" /\ done' = TRUE /\ UNCHANGED prog
\* the first line is evaluated exactly once; a program that never fails gives one result per evaluation of its last line, less the failed guards
Sound == done => LET m == Meaning(prog) IN
           /\ Len(SelectSeq(m.log, LAMBDA i : i = 1)) = 1
           /\ Len(m.res) <= Len(SelectSeq(m.log, LAMBDA i : i = Len(prog)))
           /\ \A j \in 1..(Len(m.log) - 1) : m.log[j + 1] <= m.log[j] + 1
EmitCase == done => PrintT("@@" \o ToJson([p |-> prog, r |-> Meaning(prog)]))
=============================================================================
