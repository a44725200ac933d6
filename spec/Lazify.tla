------------------------------- MODULE Lazify -------------------------------
(* Call by need: inside "with lazify", an argument of a call, an item of a   *)
(* container literal in an argument, and a let binding are promises. A       *)
(* promise is evaluated when its value is first needed and at most once,     *)
(* whether it gave a value or an exception; passing a bare name, or an item  *)
(* of a bare name, along passes the promise itself. Strict functions need    *)
(* all of their arguments, in order. What a function returns is a value.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSize, Forms
VARIABLES st, done
vars == <<st, done>>
Names == {"x", "y", "z", "t"}
\* ---------------------------------------------------------------- programs
Nd(op, n, k, ty) == [op |-> op, n |-> n, k |-> k, ty |-> ty]
Leaf == {Nd("c", v, <<>>, "i") : v \in {0, 1}} \union {Nd("ev", v, <<>>, "i") : v \in {0, 2, 3}} \union {Nd("bad", v, <<>>, "i") : v \in {4}}
        \union {Nd("ref", n, <<>>, "i") : n \in {1, 2}} \union {Nd("ref", 4, <<>>, "t")} \union {Nd("sel", v, <<>>, "i") : v \in {0, 1}}
NameOf == <<"x", "y", "z", "t">>
\* argument types -> result type
Sig == [if |-> <<<<"i", "i", "i">>, "i">>, ift |-> <<<<"i", "t", "t">>, "t">>, and |-> <<<<"i", "i">>, "i">>, or |-> <<<<"i", "i">>, "i">>, not |-> <<<<"i">>, "i">>,
        add |-> <<<<"i", "i">>, "i">>, op |-> <<<<"i", "i">>, "i">>, pair |-> <<<<"i", "i">>, "t">>, tot |-> <<<<"t">>, "i">>,
        myif |-> <<<<"i", "i", "i">>, "i">>, k |-> <<<<"i", "i">>, "i">>, s |-> <<<<"i", "i">>, "i">>, dup |-> <<<<"i">>, "i">>, sw |-> <<<<"i", "i">>, "i">>, catch |-> <<<<"i">>, "i">>, catcht |-> <<<<"t">>, "i">>,
        fst |-> <<<<"t">>, "i">>, snd |-> <<<<"t">>, "i">>, pr |-> <<<<"i", "i">>, "t">>, va |-> <<<<"i", "i">>, "i">>, kwf |-> <<<<"i", "i">>, "i">>, kt |-> <<<<"t", "t">>, "t">>,
        lam |-> <<<<"i", "i", "i">>, "i">>, lamt |-> <<<<"i", "t">>, "i">>, app |-> <<<<"i", "i">>, "i">>,
        let |-> <<<<"i", "i">>, "i">>, lett |-> <<<<"i", "t">>, "i">>, let2 |-> <<<<"i", "i", "i">>, "i">>, letseq |-> <<<<"i", "i", "i">>, "i">>, letrec |-> <<<<"i", "i", "i">>, "i">>, do |-> <<<<"i", "i">>, "i">>]
RECURSIVE Size(_)
Size(e) == IF e.k = <<>> THEN 1 ELSE 1 + (LET RECURSIVE Sum(_)
                                              Sum(q) == IF q = <<>> THEN 0 ELSE Size(Head(q)) + Sum(Tail(q)) IN Sum(e.k))
Init == st = <<>> /\ done = FALSE
Build == /\ ~done
         /\ \/ Len(st) < 5 /\ \E l \in Leaf : st' = Append(st, l)
            \/ \E f \in Forms : LET a == Len(Sig[f][1])  args == SubSeq(st, Len(st) - a + 1, Len(st)) IN
                 /\ Len(st) >= a /\ \A i \in 1..a : args[i].ty = Sig[f][1][i]
                 /\ st' = Append(SubSeq(st, 1, Len(st) - a), Nd(f, 0, args, Sig[f][2]))
         /\ Size(st'[Len(st')]) <= MaxSize /\ done' = FALSE
Finish == ~done /\ Len(st) = 1 /\ Size(st[1]) >= 4 /\ done' = TRUE /\ UNCHANGED st
Next == Build \/ Finish

\* ------------------------------------------------------------- call by need
I(n) == [k |-> "i", n |-> n, c |-> <<>>]
T(c) == [k |-> "t", n |-> 0, c |-> c]
X(n) == [k |-> "x", n |-> n, c |-> <<>>]      \* an exception
P(n) == [k |-> "p", n |-> n, c |-> <<>>]      \* the n-th promise
Unbound == [k |-> "u", n |-> 0, c |-> <<>>]
R(v, S) == [v |-> v, S |-> S]
Seq1(S) == [S EXCEPT !.bad = TRUE]
Ref(n) == Nd("ref", n, <<>>, "i")
RefT == Nd("ref", 4, <<>>, "t")
Sel(n) == Nd("sel", n, <<>>, "i")
Fn(op, k) == Nd(op, 0, k, "i")
\* bodies of the lazy library functions; parameters x, y, z or t
Body == [myif |-> Fn("if", <<Ref(1), Ref(2), Ref(3)>>), k |-> Ref(1), s |-> Ref(2), dup |-> Fn("add", <<Ref(1), Ref(1)>>), sw |-> Fn("k", <<Ref(2), Ref(1)>>), fst |-> Sel(0), snd |-> Fn("k", <<Sel(1), Sel(0)>>),
         pr |-> Fn("pair", <<Ref(1), Ref(2)>>), va |-> Sel(1), kwf |-> Sel(1)]
Empty == [n \in Names |-> Unbound]
RECURSIVE Eval(_, _, _), Force1(_, _), Force(_, _), Args(_, _, _, _, _)
\* the value of a slot: not looking into containers / forcing their items too
Force1(s, S) ==
  IF s.k # "p" THEN R(s, S)
  ELSE LET p == S.heap[s.n] IN
       CASE p.st = "done" -> R(p.v, S)
         [] p.st = "run" -> R(X(99), Seq1(S))        \* needs itself: not specified
         [] OTHER -> LET r == TLCEval(Eval(p.e, p.env, [S EXCEPT !.heap[s.n].st = "run"]))
                     IN R(r.v, [r.S EXCEPT !.heap[s.n] = [@ EXCEPT !.st = "done", !.v = r.v]])
Force(s, S) ==
  LET r == TLCEval(Force1(s, S)) IN
  IF r.v.k = "u" THEN R(X(99), Seq1(r.S)) ELSE
  IF r.v.k # "t" THEN r
  ELSE LET a == TLCEval(Force(r.v.c[1], r.S)) IN
       IF a.v.k = "x" THEN a
       ELSE LET b == TLCEval(Force(r.v.c[2], a.S)) IN IF b.v.k = "x" THEN b ELSE R(T(<<a.v, b.v>>), b.S)
Promise(e, env, S) == R(P(Len(S.heap) + 1), [S EXCEPT !.heap = Append(@, [e |-> e, env |-> env, st |-> "new", v |-> Unbound])])
\* what is passed for an argument expression
Arg(e, env, S) ==
  CASE e.op = "ref" -> IF env[NameOf[e.n]].k = "u" THEN R(X(99), Seq1(S)) ELSE R(env[NameOf[e.n]], S)
    [] e.op = "sel" -> LET r == TLCEval(Force1(env["t"], S)) IN IF r.v.k = "x" THEN r ELSE IF r.v.k # "t" THEN R(X(99), Seq1(r.S)) ELSE R(r.v.c[e.n + 1], r.S)
    [] e.op = "pair" -> LET a == TLCEval(Promise(e.k[1], env, S))  b == TLCEval(Promise(e.k[2], env, a.S)) IN R(T(<<a.v, b.v>>), b.S)
    [] OTHER -> Promise(e, env, S)
\* the arguments from the i-th on; v is an exception, or a "t" with all of them
Args(es, i, env, S, acc) == IF i > Len(es) THEN R(T(acc), S)
                            ELSE LET r == TLCEval(Arg(es[i], env, S)) IN IF r.v.k = "x" THEN r ELSE Args(es, i + 1, env, r.S, Append(acc, r.v))
Log(S, x) == [S EXCEPT !.log = Append(@, x)]
RECURSIVE Sum(_)
Sum(v) == IF v.k = "i" THEN v.n ELSE LET RECURSIVE Go(_)
                                         Go(q) == IF q = <<>> THEN 0 ELSE Sum(Head(q)) + Go(Tail(q)) IN Go(v.c)
\* force all of a sequence of slots in order
RECURSIVE ForceAll(_, _, _, _)
ForceAll(c, i, S, acc) == IF i > Len(c) THEN R(T(acc), S) ELSE LET r == TLCEval(Force(c[i], S)) IN IF r.v.k = "x" THEN r ELSE ForceAll(c, i + 1, r.S, Append(acc, r.v))
Strict(es, env, S) == LET a == TLCEval(Args(es, 1, env, S, <<>>)) IN IF a.v.k = "x" THEN a ELSE ForceAll(a.v.c, 1, a.S, <<>>)
Bind(env, ns, c) == [n \in Names |-> IF \E i \in 1..Len(ns) : ns[i] = n THEN c[CHOOSE i \in 1..Len(ns) : ns[i] = n] ELSE env[n]]
Lib(op, c, S) == LET env == IF op \in {"fst", "snd"} THEN Bind(Empty, <<"t">>, c) ELSE IF op \in {"va", "kwf"} THEN Bind(Empty, <<"t">>, <<T(c)>>)
                            ELSE Bind(Empty, SubSeq(<<"x", "y", "z">>, 1, Len(c)), c)
                 IN Eval(Body[op], env, S)
Eval(e, env, S) ==
  CASE e.op = "c" -> R(I(e.n), S)
    [] e.op = "ev" -> R(I(e.n), Log(S, e.n))
    [] e.op = "bad" -> R(X(e.n), Log(S, e.n))
    [] e.op = "ref" -> Force(env[NameOf[e.n]], S)
    [] e.op = "sel" -> (LET r == TLCEval(Force1(env["t"], S)) IN IF r.v.k = "x" THEN r ELSE IF r.v.k # "t" THEN R(X(99), Seq1(r.S)) ELSE Force(r.v.c[e.n + 1], r.S))
    [] e.op \in {"if", "ift"} -> (LET c == TLCEval(Eval(e.k[1], env, S)) IN IF c.v.k = "x" THEN c ELSE IF c.v.n # 0 THEN Eval(e.k[2], env, c.S) ELSE Eval(e.k[3], env, c.S))
    [] e.op = "and" -> (LET c == TLCEval(Eval(e.k[1], env, S)) IN IF c.v.k = "x" \/ c.v.n = 0 THEN c ELSE Eval(e.k[2], env, c.S))
    [] e.op = "or" -> (LET c == TLCEval(Eval(e.k[1], env, S)) IN IF c.v.k = "x" \/ c.v.n # 0 THEN c ELSE Eval(e.k[2], env, c.S))
    [] e.op = "not" -> (LET c == TLCEval(Eval(e.k[1], env, S)) IN IF c.v.k = "x" THEN c ELSE R(I(IF c.v.n = 0 THEN 1 ELSE 0), c.S))
    [] e.op \in {"pair", "op"} -> (LET a == TLCEval(Eval(e.k[1], env, S)) IN IF a.v.k = "x" THEN a ELSE
                       LET b == TLCEval(Eval(e.k[2], env, a.S)) IN IF b.v.k = "x" THEN b ELSE R(IF e.op = "op" THEN I(a.v.n + b.v.n) ELSE T(<<a.v, b.v>>), b.S))
    [] e.op = "do" -> (LET a == TLCEval(Eval(e.k[1], env, S)) IN IF a.v.k = "x" THEN a ELSE Eval(e.k[2], env, a.S))
    [] e.op \in {"add", "tot"} -> (LET a == TLCEval(Strict(e.k, env, S)) IN IF a.v.k = "x" THEN a ELSE R(I(Sum(a.v)), Log(a.S, 100 + Sum(a.v))))
    [] e.op \in {"myif", "k", "s", "dup", "sw", "fst", "snd", "pr", "va", "kwf"} -> (LET a == TLCEval(Args(e.k, 1, env, S, <<>>)) IN IF a.v.k = "x" THEN a ELSE Lib(e.op, a.v.c, a.S))
    [] e.op = "kt" -> (LET a == TLCEval(Args(e.k, 1, env, S, <<>>)) IN IF a.v.k = "x" THEN a ELSE Force(a.v.c[1], a.S))
    [] e.op \in {"catch", "catcht"} -> (LET a == TLCEval(Args(e.k, 1, env, S, <<>>)) IN IF a.v.k = "x" THEN a ELSE
                             LET r == TLCEval(Force(a.v.c[1], a.S)) IN IF r.v.k = "x" THEN (LET q == TLCEval(Force(a.v.c[1], Log(r.S, 200))) IN IF q.v.k = "x" THEN R(I(7), q.S) ELSE q) ELSE R(I(Sum(r.v)), r.S))
    [] e.op = "lam" -> (LET a == TLCEval(Args(<<e.k[2], e.k[3]>>, 1, env, S, <<>>)) IN IF a.v.k = "x" THEN a ELSE Eval(e.k[1], Bind(env, <<"x", "y">>, a.v.c), a.S))
    [] e.op = "lamt" -> (LET a == TLCEval(Arg(e.k[2], env, S)) IN IF a.v.k = "x" THEN a ELSE Eval(e.k[1], Bind(env, <<"t">>, <<a.v>>), a.S))
    [] e.op = "app" -> (LET a == TLCEval(Arg(e.k[2], env, S)) IN IF a.v.k = "x" THEN a ELSE Eval(e.k[1], Bind(env, <<"x">>, <<a.v>>), a.S))
    [] e.op = "let" -> (LET a == TLCEval(Arg(e.k[2], env, S)) IN IF a.v.k = "x" THEN a ELSE Eval(e.k[1], Bind(env, <<"x">>, <<a.v>>), a.S))
    [] e.op = "lett" -> (LET a == TLCEval(Arg(e.k[2], env, S)) IN IF a.v.k = "x" THEN a ELSE Eval(e.k[1], Bind(env, <<"t">>, <<a.v>>), a.S))
    [] e.op = "let2" -> (LET a == TLCEval(Args(<<e.k[2], e.k[3]>>, 1, env, S, <<>>)) IN IF a.v.k = "x" THEN a ELSE Eval(e.k[1], Bind(env, <<"x", "y">>, a.v.c), a.S))
    [] e.op = "letseq" -> (LET a == TLCEval(Arg(e.k[2], env, S)) IN IF a.v.k = "x" THEN a ELSE
                           LET env1 == Bind(env, <<"x">>, <<a.v>>)  b == TLCEval(Arg(e.k[3], env1, a.S)) IN IF b.v.k = "x" THEN b ELSE Eval(e.k[1], Bind(env1, <<"y">>, <<b.v>>), b.S))
    [] e.op = "letrec" -> \* the promises see the finished environment; a bare name is looked up at once
         (LET i1 == Len(S.heap) + 1  i2 == i1 + 1
              isref(q) == q.op \in {"ref", "sel"}
              env1 == Bind(env, <<"x", "y">>, <<P(i1), P(i2)>>)
              S1 == [S EXCEPT !.heap = @ \o <<[e |-> e.k[2], env |-> env1, st |-> "new", v |-> Unbound], [e |-> e.k[3], env |-> env1, st |-> "new", v |-> Unbound]>>]
          IN IF isref(e.k[2]) \/ isref(e.k[3]) THEN R(X(99), Seq1(S)) ELSE Eval(e.k[1], env1, S1))
Top == LET S0 == [log |-> <<>>, heap |-> <<>>, bad |-> FALSE]
           a == TLCEval(Args(<<Nd("ev", 8, <<>>, "i"), Nd("bad", 9, <<>>, "i"), Nd("pair", 0, <<Nd("ev", 5, <<>>, "i"), Nd("ev", 0, <<>>, "i")>>, "t")>>, 1, Empty, S0, <<>>))
       IN Eval(st[1], Bind(Empty, <<"x", "y", "t">>, a.v.c), a.S)
\* No promise of a finished program is evaluated twice: the log of a promise's own leaf appears at most once per promise
Result == TLCEval(Top)
Emit == done => (Result.S.bad \/ PrintT("@@" \o ToJson([e |-> st[1], v |-> Result.v, log |-> Result.S.log])))
AllSettled == done => \A i \in 1..Len(Result.S.heap) : Result.S.heap[i].st \in {"new", "done"}
=============================================================================
