------------------------------- MODULE Curry -------------------------------
(* Currying (unpythonic.fun.curry): arguments are collected over any number  *)
(* of steps, by position or by name, and bound as Python binds them; the     *)
(* call happens as soon as every parameter has a binding; arguments the      *)
(* function cannot take are passed through to the function it returns, or    *)
(* to the surrounding curry context, or are an error if there is none.       *)
(* Composition and pipes of plain and of curried functions over structured   *)
(* return values (Values).                                                   *)
(* Values are integers: 10*step+i arguments, 1000+n / 2000+n results of call *)
(* n, -g the function g, -100-g the curried function g, 9000 a partially     *)
(* applied one.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Roots, MaxPos, NameSets, Depth, ChainLen, ChainFns
VARIABLES objs, hist, top, chain
vars == <<objs, hist, top, chain>>

EmptyF == [x \in {} |-> 0]
P(n, r) == [n |-> n, req |-> r]
F(pos, star, kwo, kw, ret, g) == [pos |-> pos, star |-> star, kwo |-> kwo, kw |-> kw, ret |-> ret, g |-> g]
Fn == <<
  F(<<P("a",TRUE), P("b",TRUE)>>, FALSE, <<>>, FALSE, "data", 0),                       \* 1  (a, b)
  F(<<P("a",TRUE), P("b",TRUE)>>, FALSE, <<P("k",TRUE)>>, FALSE, "data", 0),            \* 2  (a, b, *, k)
  F(<<P("a",TRUE)>>, TRUE, <<>>, FALSE, "vals", 0),                                     \* 3  (a, *rest) -> Values(x, y)
  F(<<P("a",TRUE), P("b",FALSE)>>, FALSE, <<>>, FALSE, "fn", 1),                        \* 4  (a, b=..) -> function 1
  F(<<>>, FALSE, <<P("k",TRUE), P("j",FALSE)>>, FALSE, "kwvals", 0),                    \* 5  (*, k, j=..) -> Values(x, z=y)
  F(<<P("a",TRUE)>>, FALSE, <<>>, TRUE, "data", 0),                                     \* 6  (a, **kw)
  F(<<>>, FALSE, <<>>, FALSE, "cfn", 3),                                                \* 7  () -> curried 3
  F(<<P("a",TRUE)>>, FALSE, <<P("k",FALSE)>>, FALSE, "val1", 0),                        \* 8  (a, *, k=..) -> Values(x)
  F(<<P("a",TRUE), P("b",FALSE)>>, TRUE, <<P("k",TRUE)>>, TRUE, "data", 0),             \* 9  (a, b=.., *rest, k, **kw)
  F(<<P("a",TRUE)>>, FALSE, <<>>, FALSE, "fvals", 2),                                   \* 10 (a) -> Values(function 2, y)
  F(<<P("a",TRUE)>>, FALSE, <<>>, FALSE, "cfn", 10),                                    \* 11 (a) -> curried 10
  F(<<P("a",TRUE), P("b",FALSE)>>, FALSE, <<>>, FALSE, "kwonly", 0),                    \* 12 (a, b=..) -> Values(k=x)
  F(<<P("a",TRUE)>>, FALSE, <<>>, FALSE, "data", 0),                                    \* 13 (a)
  F(<<P("a",TRUE), P("b",TRUE)>>, FALSE, <<>>, FALSE, "vals", 0),                       \* 14 (a, b) -> Values(x, y)
  F(<<P("a",TRUE)>>, FALSE, <<>>, FALSE, "fn", 4),                                      \* 15 (a) -> function 4
  F(<<P("a",TRUE)>>, FALSE, <<>>, FALSE, "nested", 0)                                   \* 16 (a) -> Values(w), w itself a Values
>>

Merge(f, g) == [x \in DOMAIN f \union DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Restrict(f, S) == [x \in DOMAIN f \intersect S |-> f[x]]
Min(a, b) == IF a < b THEN a ELSE b
PosNames(f) == {Fn[f].pos[i].n : i \in 1..Len(Fn[f].pos)}
KwoNames(f) == {Fn[f].kwo[i].n : i \in 1..Len(Fn[f].kwo)}

\* how the arguments bind to the parameters of f
Bind(f, args, kws) ==
  LET fn == Fn[f]
      np == Len(fn.pos)
      taken == Min(np, Len(args))
      byname == {n \in DOMAIN kws : n \in PosNames(f) \union KwoNames(f)}
  IN [conflict |-> \E i \in 1..taken : fn.pos[i].n \in DOMAIN kws,
      extra |-> IF fn.star THEN <<>> ELSE SubSeq(args, np + 1, Len(args)),
      extrakw |-> IF fn.kw THEN EmptyF ELSE Restrict(kws, DOMAIN kws \ byname),
      unbound |-> \/ \E i \in taken+1..np : fn.pos[i].req /\ fn.pos[i].n \notin DOMAIN kws
                  \/ \E i \in 1..Len(fn.kwo) : fn.kwo[i].req /\ fn.kwo[i].n \notin DOMAIN kws,
      \* the call, as the body of f sees it
      b |-> Merge([n \in {fn.pos[i].n : i \in 1..taken} |-> args[CHOOSE i \in 1..taken : fn.pos[i].n = n]], Restrict(kws, byname)),
      rest |-> IF fn.star THEN SubSeq(args, np + 1, Len(args)) ELSE <<>>,
      kw |-> IF fn.kw THEN Restrict(kws, DOMAIN kws \ byname) ELSE EmptyF]

Rets(f, n) == LET r == Fn[f].ret IN
  CASE r = "data" -> <<1000 + n>>
    [] r = "val1" -> <<1000 + n>>
    [] r = "nested" -> <<3000 + n>>
    [] r = "vals" -> <<1000 + n, 2000 + n>>
    [] r = "fn" -> <<0 - Fn[f].g>>
    [] r = "cfn" -> <<0 - 100 - Fn[f].g>>
    [] r = "fvals" -> <<0 - Fn[f].g, 2000 + n>>
    [] r = "kwvals" -> <<1000 + n>>
    [] r = "kwonly" -> <<>>
KwRets(f, n) == IF Fn[f].ret = "kwvals" THEN ("z" :> 2000 + n) ELSE IF Fn[f].ret = "kwonly" THEN ("k" :> 1000 + n) ELSE EmptyF
Plain(f) == Fn[f].ret \in {"data", "fn", "cfn"}

Err(calls) == [k |-> "err", rets |-> <<>>, kw |-> EmptyF, calls |-> calls, o |-> <<>>]
Callable(v) == v < 0

RECURSIVE Apply(_, _, _, _, _)
\* call the curried function f with these collected arguments; istop: no surrounding curry context
Apply(f, args, kws, istop, calls) ==
  LET b == Bind(f, args, kws)
      n == Len(calls) + 1
      calls2 == Append(calls, [f |-> f, b |-> b.b, rest |-> b.rest, kw |-> b.kw])
      rets == Rets(f, n)
      kwr == KwRets(f, n)
      lead == Len(rets) > 0 /\ Callable(rets[1])
      g == IF rets[1] <= 0 - 100 THEN 0 - 100 - rets[1] ELSE 0 - rets[1]
      later == (IF lead THEN Tail(rets) ELSE rets) \o b.extra
      laterkw == Merge(b.extrakw, kwr)
  IN IF b.conflict THEN Err(calls)
     ELSE IF b.unbound THEN [k |-> "curried", rets |-> <<9000>>, kw |-> EmptyF, calls |-> calls, o |-> <<f, args, kws>>]
     ELSE IF b.extra = <<>> /\ DOMAIN b.extrakw = {}
          THEN [k |-> IF Plain(f) THEN "plain" ELSE "values", rets |-> rets, kw |-> kwr, calls |-> calls2, o |-> <<>>]
     ELSE IF lead THEN Apply(g, later, laterkw, istop, calls2)
     ELSE IF istop THEN Err(calls2)
     ELSE [k |-> "values", rets |-> later, kw |-> laterkw, calls |-> calls2, o |-> <<>>]

\* call the plain function f
Direct(f, args, kws, calls) ==
  LET b == Bind(f, args, kws)
      n == Len(calls) + 1
  IN IF b.conflict \/ b.unbound \/ b.extra # <<>> \/ DOMAIN b.extrakw # {} THEN Err(calls)
     ELSE [k |-> IF Plain(f) THEN "plain" ELSE "values", rets |-> Rets(f, n), kw |-> KwRets(f, n), o |-> <<>>,
           calls |-> Append(calls, [f |-> f, b |-> b.b, rest |-> b.rest, kw |-> b.kw])]

RECURSIVE RunChain(_, _, _, _, _, _, _)
\* apply fs[i], fs[i+1], ... one after the other, each to the values of the previous one
RunChain(fs, i, curried, args, kws, istop, calls) ==
  LET r == IF curried THEN Apply(fs[i], args, kws, istop /\ i = Len(fs), calls) ELSE Direct(fs[i], args, kws, calls)
  IN IF r.k = "err" \/ i = Len(fs) THEN r ELSE RunChain(fs, i + 1, curried, r.rets, r.kw, istop, r.calls)

(* ------------------------------ currying ------------------------------- *)
Init == /\ \E r \in Roots : objs = <<[f |-> r, args |-> <<>>, kws |-> EmptyF]>>
        /\ top \in BOOLEAN /\ hist = <<>> /\ chain = 0
KwVals(S, base) == [n \in S |-> base + (CASE n = "a" -> 5 [] n = "b" -> 6 [] n = "k" -> 7 [] n = "z" -> 8 [] OTHER -> 9)]
Step == \E o \in 1..Len(objs), n \in 0..MaxPos, S \in NameSets :
  LET base == 10 * (Len(hist) + 1)
      new == [i \in 1..n |-> base + i]
      newkw == KwVals(S, base)
      ob == objs[o]
      r == Apply(ob.f, ob.args \o new, Merge(ob.kws, newkw), top, <<>>)
      isobj == r.k = "curried" \/ (r.k = "plain" /\ r.rets[1] <= 0 - 100)
  IN /\ objs' = IF r.k = "curried" THEN Append(objs, [f |-> r.o[1], args |-> r.o[2], kws |-> r.o[3]])
                ELSE IF r.k = "plain" /\ r.rets[1] <= 0 - 100 THEN Append(objs, [f |-> 0 - 100 - r.rets[1], args |-> <<>>, kws |-> EmptyF])
                ELSE objs
     /\ hist' = Append(hist, [o |-> o, root |-> objs[1].f, n |-> n, kw |-> newkw, top |-> top, new |-> isobj,
                              r |-> [k |-> r.k, rets |-> r.rets, kw |-> r.kw], calls |-> r.calls])
Next == /\ Len(hist) < Depth /\ Step /\ UNCHANGED <<top, chain>>
Emit == Len(hist) # Depth \/ PrintT("@@" \o ToJson(hist))

\* collecting in steps is the same as passing everything at once (within this specification)
Stepwise == \A i \in 1..Len(objs) :
  LET o == objs[i] IN Apply(o.f, o.args, o.kws, top, <<>>).k \in {"curried"} \/ o.args = <<>> 

(* ------------------------- composition and pipes ----------------------- *)
CInit == /\ objs = <<>> /\ hist = <<>> /\ chain = <<>> /\ top \in BOOLEAN
CNext == /\ Len(chain) < ChainLen /\ \E f \in ChainFns : chain' = Append(chain, f)
         /\ UNCHANGED <<objs, hist, top>>
CEmit == chain = <<>> \/ \A cur \in BOOLEAN, n \in 0..3, S \in {{}, {"k"}, {"z"}, {"b"}} :
  LET args == [i \in 1..n |-> 10 + i]
      kws == KwVals(S, 10)
      r == RunChain(chain, 1, cur, args, kws, top, <<>>)
  IN (n = 0 /\ S = {}) \/ PrintT("@@" \o ToJson([fs |-> chain, curried |-> cur, n |-> n, kw |-> kws, top |-> top,
        r |-> [k |-> r.k, rets |-> r.rets, kw |-> r.kw], calls |-> r.calls]))
=============================================================================
