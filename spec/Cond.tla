-------------------------------- MODULE Cond --------------------------------
(* The condition system (unpythonic.conditions).                            *)
(*                                                                          *)
(* State, per thread: the control stack `fr' (outermost first) of           *)
(*    "try"  a Python try block                                             *)
(*    "h"    a `with handlers' block: a sequence of bindings                *)
(*    "m"    a `with resignal' block: a sequence of conversions             *)
(*    "r"    a `with restarts' block (also the implicit one of cerror/warn) *)
(*    "s"    a signal in progress: its condition, protocol, handlers to try *)
(*    "u"    a running user handler                                         *)
(*    "mu"   a running conversion handler                                   *)
(* The user's program is a free choice of operations at the point of        *)
(* control (in a block or inside a running handler); the specification says *)
(* where control goes, with what value, and which restarts and handlers are *)
(* then in scope.  Signalling does not unwind; invoking a restart unwinds   *)
(* exactly to its block; exceptions unwind to the innermost try.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Threads,
          Types,      \* condition types used (strings, subset of A B C D E)
          Protos,     \* subset of {"signal","error","cerror","warn"}
          HSpecs,     \* possible type sets of a handler binding
          RNames,     \* user restart names
          Maps,       \* possible conversion sequences ({} = no resignal)
          MaxLen, MaxDepth

VARIABLES fr, hist
vars == <<fr, hist>>

Max(S) == CHOOSE x \in S : \A y \in S : x >= y
\* B is a subclass of A; E stands for ControlError
Sub(c, t) == c = t \/ (c = "B" /\ t = "A")
Matches(c, ts) == \E t \in ts : Sub(c, t)

Top(f) == f[Len(f)]
Pop(f) == SubSeq(f, 1, Len(f) - 1)
NoRet == [k |-> "none", id |-> 0, name |-> ""]

F(k, id) == [k |-> k, id |-> id, b |-> <<>>, ns |-> {}, c |-> "", cid |-> 0, cause |-> 0,
             proto |-> "", todo |-> <<>>, h |-> <<0, 0>>]

\* handlers for c, innermost block first, within a block in the order written
RECURSIVE HandlersOf(_, _)
HandlersOf(f, c) ==
  IF f = <<>> THEN <<>>
  ELSE LET x == Top(f)
           here == IF x.k = "h"
                   THEN LET idx == {i \in 1..Len(x.b) : Matches(c, x.b[i])}
                        IN [i \in 1..Cardinality(idx) |->
                              [k |-> "u", h |-> <<x.id, CHOOSE j \in idx : Cardinality({m \in idx : m < j}) = i - 1>>, mp |-> <<>>]]
                   ELSE IF x.k = "m" THEN <<[k |-> "m", h |-> <<x.id, 0>>, mp |-> x.b]>>
                   ELSE <<>>
       IN here \o HandlersOf(Pop(f), c)

RestartAt(f, n) == {i \in 1..Len(f) : f[i].k = "r" /\ n \in f[i].ns}
AllR == RNames \union {"proceed", "muffle"}
Visible(f) == [n \in {n \in AllR : RestartAt(f, n) # {}} |-> f[Max(RestartAt(f, n))].id]
BoundAt(f, t) == {i \in 1..Len(f) : f[i].k = "h" /\ \E j \in 1..Len(f[i].b) : t \in f[i].b[j]}
VisibleH(f) == [t \in {t \in {"A","B","C","D","E"} : BoundAt(f, t) # {}} |->
                  LET x == f[Max(BoundAt(f, t))]
                  IN <<x.id, CHOOSE j \in 1..Len(x.b) : t \in x.b[j] /\ \A i \in 1..(j-1) : t \notin x.b[i]>>]

RECURSIVE Run(_, _, _), Resume(_, _, _), Signal(_, _, _, _, _, _)

\* control arrives, with value ret, at the code below the frames just popped
Resume(f, ret, n) ==
  IF f # <<>> /\ Top(f).k = "mu"
  THEN LET g == Pop(f)          \* the original signal is on top
           s == Top(g)
       IN IF s.proto = "cerror" THEN Resume(Pop(Pop(g)), [k |-> "cerror", id |-> s.id, name |-> ""], n)
          ELSE IF s.proto = "warn" THEN Resume(Pop(Pop(g)), [ret EXCEPT !.id = s.id], n)
          ELSE Run(g, ret, n)
  ELSE [fr |-> f, ret |-> ret]

Unwind(f, ret, n) ==
  LET ts == {i \in 1..Len(f) : f[i].k = "try"}
  IN IF ts = {} THEN Resume(<<>>, ret, n) ELSE Resume(SubSeq(f, 1, Max(ts) - 1), ret, n)

\* the top frame is a signal: consult its next handler, or finish
Run(f, ret, n) ==
  LET s == Top(f)
  IN IF s.todo = <<>>
     THEN CASE s.proto = "signal" -> Resume(Pop(f), [k |-> "signal", id |-> s.id, name |-> ""], n)
            [] s.proto = "warn" -> Resume(Pop(Pop(f)), [k |-> "warned", id |-> s.id, name |-> s.c], n)
            [] OTHER -> Unwind(Pop(f), [k |-> "unhandled", id |-> s.cid, name |-> s.c], n)
     ELSE LET h == Head(s.todo)
              g == Append(Pop(f), [s EXCEPT !.todo = Tail(s.todo)])
          IN IF h.k = "u"
             THEN [fr |-> Append(g, [F("u", n) EXCEPT !.h = h.h, !.c = s.c, !.cid = s.cid, !.cause = s.cause]),
                   ret |-> [k |-> "handler", id |-> s.cid, name |-> s.c]]
             ELSE LET m == {i \in 1..Len(h.mp) : Sub(s.c, h.mp[i][1])}
                  IN IF m = {} THEN Run(g, ret, n)
                     ELSE LET i == CHOOSE i \in m : \A j \in m : i <= j
                          IN Signal(Append(g, F("mu", n)), h.mp[i][2], s.proto, s.cid, 0, n)

\* start signalling type c; handlers are those in scope now
Signal(f, c, proto, cause, cid, n) ==
  LET hs == HandlersOf(f, c)
      g == CASE proto = "cerror" -> Append(f, [F("r", n) EXCEPT !.ns = {"proceed"}, !.proto = "cerror"])
             [] proto = "warn" -> Append(f, [F("r", n) EXCEPT !.ns = {"muffle"}, !.proto = "warn"])
             [] OTHER -> f
  IN Run(Append(g, [F("s", n) EXCEPT !.c = c, !.cid = cid, !.cause = cause, !.proto = proto, !.todo = hs]), NoRet, n)

Invoke(f, name, n) ==
  IF RestartAt(f, name) = {} THEN Signal(f, "E", "error", 0, 0, n)
  ELSE LET i == Max(RestartAt(f, name))
           x == f[i]
       IN Resume(SubSeq(f, 1, i - 1),
                 IF x.proto = "cerror" THEN [k |-> "cerror", id |-> x.id, name |-> ""]
                 ELSE IF x.proto = "warn" THEN [k |-> "muffled", id |-> x.id, name |-> ""]
                 ELSE [k |-> "restart", id |-> x.id, name |-> name], n)

N == Len(hist) + 1

Do(t, op, arg, res) ==
  LET f == res.fr
      top == IF f = <<>> THEN F("", 0) ELSE Top(f)
  IN /\ fr' = [fr EXCEPT ![t] = f]
     /\ hist' = Append(hist, [t |-> t, op |-> op, arg |-> arg,
                              at |-> top.id, kind |-> top.k, h |-> top.h, cause |-> top.cause,
                              ret |-> res.ret, rs |-> Visible(f), hs |-> VisibleH(f)])

At(f, r) == [fr |-> f, ret |-> r]

\* the id of a block is the step that entered it; frames at the same step (nested
\* automatic ones) are never bodies, so ids of bodies are unique
Enter(t) ==
  /\ Len(fr[t]) < MaxDepth
  /\ \/ Do(t, "try", <<>>, At(Append(fr[t], F("try", N)), NoRet))
     \/ \E s \in HSpecs : Do(t, "handlers", s, At(Append(fr[t], [F("h", N) EXCEPT !.b = s]), NoRet))
     \/ \E ns \in (SUBSET RNames) \ {{}} : Do(t, "restarts", ns, At(Append(fr[t], [F("r", N) EXCEPT !.ns = ns]), NoRet))
     \/ \E m \in Maps : Do(t, "resignal", m, At(Append(fr[t], [F("m", N) EXCEPT !.b = m]), NoRet))

\* leave the innermost block, setting its result if it has one
Exit(t) ==
  /\ fr[t] # <<>> /\ Top(fr[t]).k \in {"try", "h", "r", "m"}
  /\ \E set \in (IF Top(fr[t]).k = "r" THEN BOOLEAN ELSE {FALSE}) :
       Do(t, "exit", set, At(Pop(fr[t]), [k |-> IF set THEN "value" ELSE "left", id |-> Top(fr[t]).id, name |-> ""]))

\* a handler declines
Decline(t) ==
  /\ fr[t] # <<>> /\ Top(fr[t]).k = "u"
  /\ Do(t, "decline", 0, Run(Pop(fr[t]), NoRet, N))

Sig(t) ==
  /\ Len(fr[t]) < MaxDepth
  /\ \E c \in Types, p \in Protos : Do(t, p, c, Signal(fr[t], c, p, 0, N, N))

Inv(t) == /\ fr[t] # <<>>
          /\ \E n \in AllR : Do(t, "invoke", n, Invoke(fr[t], n, N))

\* a restart object looked up when its block was entered names that very block,
\* even if an inner block now offers a restart of the same name
InvObj(t) == \E i \in {j \in 1..Len(fr[t]) : fr[t][j].k = "r" /\ fr[t][j].proto = ""} :
             \E n \in fr[t][i].ns :
               Do(t, "invokeobj", [id |-> fr[t][i].id, name |-> n],
                  Resume(SubSeq(fr[t], 1, i - 1), [k |-> "restart", id |-> fr[t][i].id, name |-> n], N))

Raise(t) == /\ fr[t] # <<>>
            /\ Do(t, "raise", 0, Unwind(fr[t], [k |-> "exc", id |-> N, name |-> ""], N))

Init == fr = [t \in Threads |-> <<>>] /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E t \in Threads : Enter(t) \/ Exit(t) \/ Decline(t) \/ Sig(t) \/ Inv(t) \/ InvObj(t) \/ Raise(t)

Emit == Len(hist) # MaxLen \/ PrintT("@@" \o ToJson(hist))

(* ------------------------------ properties ----------------------------- *)
Last == hist'[Len(hist')]

\* a signal consults handlers without unwinding: when control is in a handler,
\* the whole stack of the signalling code is still below it
NoUnwindBeforeDecision ==
  [][\A t \in Threads :
       (Last.op \in Protos /\ Last.t = t /\ Last.kind = "u") =>
          SubSeq(fr'[t], 1, Len(fr[t])) = fr[t]]_vars

\* invoking a restart that is in scope resumes right after its block: everything
\* inside it is gone, everything outside it is untouched
RestartUnwindsExactly ==
  [][\A t \in Threads :
       (Last.op = "invoke" /\ Last.t = t /\ Last.ret.k = "restart") =>
          LET i == Max(RestartAt(fr[t], Last.arg)) IN fr'[t] = SubSeq(fr[t], 1, i - 1)]_vars

\* error never returns normally; cerror returns only through its proceed
ErrorNeverReturns ==
  [][(Last.op \in {"error", "cerror"}) => Last.ret.k # "signal"]_vars

\* a plain signal nobody handles returns, with the stack as it was
UnhandledSignalReturns ==
  [][\A t \in Threads :
       (Last.op = "signal" /\ Last.t = t /\ Last.ret.k = "signal") => fr'[t] = fr[t]]_vars

\* handlers and restarts of one thread are unaffected by other threads
ThreadLocal == [][\A t \in Threads : Last.t # t => fr'[t] = fr[t]]_vars
=============================================================================
