-------------------------------- MODULE Sig --------------------------------
(* Signatures and calls: Python's rules for binding arguments to parameters, *)
(* and what unpythonic.arity and unpythonic.fun.partial say about them.      *)
(* A case is one state; its expected outcome is a function of the state.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, MaxN, CallNames
VARIABLES c
\* po positional-only parameters (p), pk plain ones (a, b), the last d of these have defaults; *rest; keyword-only k (required) and j (optional); **kw
Sigs == {s \in [po : 0..1, pk : 0..2, d : 0..3, star : BOOLEAN, kwo : {<<>>, <<"k">>, <<"j">>, <<"k", "j">>}, kw : BOOLEAN] : s.d <= s.po + s.pk}
Small == {s \in Sigs : s.po = 0 /\ s.kwo \in {<<>>, <<"k">>, <<"j">>}}
PosNames(s) == SubSeq(<<"p">>, 1, s.po) \o SubSeq(<<"a", "b">>, 1, s.pk)
NPos(s) == s.po + s.pk
IsReq(s, i) == i <= NPos(s) - s.d
Set(q) == {q[i] : i \in 1..Len(q)}
Min(a, b) == IF a < b THEN a ELSE b
Inf == 1000

\* ---- inspection: kinds of callables, how many of the positional parameters are implicit
Kinds == {"function", "lambda", "bound", "unbound", "classmethod", "instclassmethod", "static", "inststatic", "object", "class", "partial1", "curried", "wrapped"}
Lower(s) == NPos(s) - s.d
Upper(s) == IF s.star THEN Inf ELSE NPos(s)
LessOne(n) == IF n = Inf THEN Inf ELSE IF n = 0 THEN 0 ELSE n - 1
Arities(s, kind) == IF kind = "partial1" THEN [lo |-> LessOne(Lower(s)), hi |-> LessOne(Upper(s))]
                    ELSE IF kind = "unbound" THEN [lo |-> Lower(s) + 1, hi |-> IF s.star THEN Inf ELSE Upper(s) + 1]
                    ELSE [lo |-> Lower(s), hi |-> Upper(s)]
Ok(s, kind) == (kind = "partial1" => Upper(s) > 0) /\ (kind = "curried" => TRUE)
Req(s) == {"k"} \intersect Set(s.kwo)
Opt(s) == {"j"} \intersect Set(s.kwo)
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y

\* ---- binding
Binding(s, n, names, partial) ==
  LET ps == PosNames(s)
      m == Min(n, NPos(s))
      named == {x \in names : x \in Set(SubSeq(ps, s.po + 1, NPos(s))) \/ x \in Set(s.kwo)}
      other == names \ named
      dup == {x \in named : \E i \in 1..m : ps[i] = x}
      missing == {ps[i] : i \in {j \in 1..NPos(s) : j > m /\ ps[j] \notin named /\ IsReq(s, j)}} \union {x \in Req(s) : x \notin named}
      given == {ps[i] : i \in 1..m} \union named
      dflt == {ps[i] : i \in {j \in 1..NPos(s) : ~IsReq(s, j)}} \union Opt(s)
  IN [ok |-> /\ dup = {} /\ (n > NPos(s) => s.star) /\ (other # {} => s.kw) /\ (~partial => missing = {}),
      pos |-> SubSeq(ps, 1, m), named |-> named, dflt |-> dflt \ given, rest |-> IF n > m THEN n - m ELSE 0, kw |-> other]

\* ---- type-checking partial: p(n1, names1) then (n2, names2); bad: the argument of the wrong type, by step and place
Init ==
  \/ /\ Mode = "insp"
     /\ \/ \E s \in Sigs, k \in Kinds : Ok(s, k) /\ c = [m |-> "insp", sigs |-> <<s>>, kind |-> k]
        \/ \E s, t \in Small, k \in {"generic", "genbound", "genclass", "genstatic", "geninherit"} : s # t /\ c = [m |-> "insp", sigs |-> <<s, t>>, kind |-> k]
  \/ /\ Mode = "bind"
     /\ \E s \in Sigs, n \in 0..MaxN, ns \in SUBSET CallNames : c = [m |-> "bind", s |-> s, n |-> n, ns |-> ns]
  \/ /\ Mode = "part"
     /\ c = [m |-> "part", ph |-> 0]
Next == /\ Mode = "part"
        /\ \/ c.ph = 0 /\ \E s \in Sigs : c' = [m |-> "part", ph |-> 1, s |-> s]
           \/ c.ph = 1 /\ \E ann \in SUBSET (Set(PosNames(c.s)) \union Set(c.s.kwo)) : c' = [m |-> "part", ph |-> 2, s |-> c.s, ann |-> ann, steps |-> <<>>]
           \/ c.ph \in 2..4 /\ \E n \in 0..2, ns \in SUBSET CallNames : \E bad \in {"none"} \union ns \union {<<"p1", "p2">>[i] : i \in 1..n} :
                c' = [c EXCEPT !.ph = @ + 1, !.steps = Append(@, [n |-> n, ns |-> ns, bad |-> bad])]

\* the arguments collected so far: total number by position, names, and which parameters have a value of the wrong type
RECURSIVE Collect(_, _, _)
Collect(steps, i, acc) ==
  IF i > Len(steps) THEN acc
  ELSE LET t == steps[i]
           at == acc.n + (IF t.bad = "p1" THEN 1 ELSE 2)
       IN Collect(steps, i + 1, [n |-> acc.n + t.n, ns |-> acc.ns \union t.ns,
                                 bp |-> acc.bp \union (IF t.bad \in {"p1", "p2"} THEN {at} ELSE {}),
                                 bn |-> (acc.bn \ t.ns) \union (IF t.bad \in {"none", "p1", "p2"} THEN {} ELSE {t.bad})])
Sum(steps, k) == Collect(SubSeq(steps, 1, k), 1, [n |-> 0, ns |-> {}, bp |-> {}, bn |-> {}])
WrongTypes(s, ann, a) == {PosNames(s)[i] : i \in {j \in a.bp : j <= NPos(s)}} \intersect ann # {} \/ (a.bn \intersect ann \intersect (Set(SubSeq(PosNames(s), s.po + 1, NPos(s))) \union Set(s.kwo))) # {}
\* outcome after each of the partial steps (the last one is the call): "ok", "TypeError", or "any" where the arguments do not fit
Out(k) == LET a == Sum(c.steps, k)
              b == Binding(c.s, a.n, a.ns, TRUE)
          IN IF ~b.ok THEN "any" ELSE IF WrongTypes(c.s, c.ann, a) THEN "TypeError" ELSE "ok"

\* exactly the accepted numbers of positional arguments bind, when the required keyword-only arguments are given
Consistent == Mode = "bind" => (c.ns = Req(c.s) => (Binding(c.s, c.n, c.ns, FALSE).ok <=> (c.n >= Lower(c.s) /\ c.n <= Upper(c.s))))
Emit ==
  CASE c.m = "insp" ->
         LET as == {Arities(c.sigs[i], c.kind) : i \in 1..Len(c.sigs)}
         IN PrintT("@@" \o ToJson([m |-> "insp", sigs |-> c.sigs, kind |-> c.kind, lo |-> MinS({a.lo : a \in as}), hi |-> MaxS({a.hi : a \in as}),
                                   req |-> UNION {Req(c.sigs[i]) : i \in 1..Len(c.sigs)}, opt |-> UNION {Opt(c.sigs[i]) : i \in 1..Len(c.sigs)}]))
    [] c.m = "bind" -> PrintT("@@" \o ToJson([m |-> "bind", s |-> c.s, n |-> c.n, ns |-> c.ns, full |-> Binding(c.s, c.n, c.ns, FALSE), part |-> Binding(c.s, c.n, c.ns, TRUE)]))
    [] c.m = "part" -> IF c.ph < 5 THEN TRUE
                       ELSE PrintT("@@" \o ToJson([m |-> "part", s |-> c.s, ann |-> c.ann, steps |-> c.steps, out |-> <<Out(1), Out(2)>>,
                              full |-> LET a == Sum(c.steps, 3) IN Binding(c.s, a.n, a.ns, FALSE)]))
=============================================================================
