------------------------------- MODULE GCurry -------------------------------
(* Currying a generic function (unpythonic.fun.curry, unpythonic.dispatch):  *)
(* arguments are collected over any number of steps; as soon as they fit a   *)
(* multimethod completely, the newest such one is called (preferring one     *)
(* that takes exactly these arguments; otherwise the rest is passed on);     *)
(* while they fit the beginning of some multimethod, more are awaited;       *)
(* arguments that fit none are an error at once.                             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxMethods, Depth
VARIABLES ms, steps, st, out
vars == <<ms, steps, st, out>>
Types == {"i", "s"}
Lists == {<<>>} \union {<<a>> : a \in Types} \union {<<a, b>> : a, b \in Types}
Methods == [ts : Lists, k : BOOLEAN]          \* positional parameters; a required keyword-only k: int, or not
\* registration order: oldest first; the newest is tried first
Order == [i \in 1..Len(ms) |-> Len(ms) + 1 - i]

Unbound(m, a) == Len(a.ts) < Len(m.ts) \/ (m.k /\ a.k = "")
Extra(m, a) == Len(a.ts) > Len(m.ts) \/ (~m.k /\ a.k # "")
Fits(m, a) == (\A i \in 1..Len(m.ts) : i <= Len(a.ts) => m.ts[i] = a.ts[i]) /\ (m.k /\ a.k # "" => a.k = "i")
First(P(_)) == LET S == {i \in 1..Len(Order) : P(ms[Order[i]])} IN IF S = {} THEN 0 ELSE Order[CHOOSE i \in S : \A j \in S : i <= j]
\* [k: kind of outcome, m: method called, n: positional arguments left over, kw: keyword argument left over]
Outcome(a) ==
  LET exact == First(LAMBDA m : Fits(m, a) /\ ~Unbound(m, a) /\ ~Extra(m, a))
      full == First(LAMBDA m : Fits(m, a) /\ ~Unbound(m, a) /\ Extra(m, a))
      part == First(LAMBDA m : Fits(m, a) /\ Unbound(m, a) /\ ~Extra(m, a))
      odd == First(LAMBDA m : Fits(m, a) /\ Unbound(m, a) /\ Extra(m, a))
      Res(k, m, n, kw) == [k |-> k, m |-> m, n |-> n, kw |-> kw]
  IN IF exact # 0 THEN Res("call", exact, 0, FALSE)
     ELSE IF full # 0 THEN Res("pass", full, Len(a.ts) - Len(ms[full].ts), ~ms[full].k /\ a.k # "")
     ELSE IF part # 0 THEN Res("more", 0, 0, FALSE)
     ELSE IF odd # 0 THEN Res("any", 0, 0, FALSE)
     ELSE Res("TypeError", 0, 0, FALSE)

Init == /\ \E n \in 1..MaxMethods : ms \in [1..n -> Methods]
        /\ \A i, j \in DOMAIN ms : i # j => ms[i] # ms[j]
        /\ steps = <<>> /\ st = [ts |-> <<>>, k |-> ""] /\ out = <<>>
Next == /\ Len(steps) < Depth /\ (IF out = <<>> THEN TRUE ELSE out[Len(out)].k = "more")
        /\ \E ts \in Lists, k \in {"", "i", "s"} :
             /\ (k # "" => st.k = "") /\ (steps # <<>> => (ts # <<>> \/ k # ""))
             /\ steps' = Append(steps, [ts |-> ts, k |-> k])
             /\ st' = [ts |-> st.ts \o ts, k |-> IF k = "" THEN st.k ELSE k]
             /\ out' = Append(out, Outcome(st'))
             /\ UNCHANGED ms
\* arguments given in several steps end as if given at once
Stepwise == out # <<>> => out[Len(out)] = Outcome(st)
Emit == out = <<>> \/ (out[Len(out)].k = "more" /\ Len(out) < Depth) \/ PrintT("@@" \o ToJson([ms |-> ms, steps |-> steps, out |-> out]))
=============================================================================
