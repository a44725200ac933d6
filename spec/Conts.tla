-------------------------------- MODULE Conts -------------------------------
(* Multi-shot continuations (with continuations, call_cc).                   *)
(* A continuation is a sequence of frames: code pointer, values of the local *)
(* variables, and how many values it takes. Return passes the value(s) to    *)
(* the first frame, which runs with the rest as its continuation; with no    *)
(* frames left, the run ends with that value. call_cc[f(..)] runs f with a   *)
(* new frame for the rest of the body in front of the current continuation.  *)
(* Calling a continuation runs its frames, then those of the call site.      *)
(* Frames are immutable: a continuation can be resumed any number of times.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Fuel, MaxScript, Features
VARIABLES prog, ret, script, phase, exit
vars == <<prog, ret, script, phase, exit>>
NF == 3
M == 97
Norm(x) == (x + M) % M

\* ------------------------------------------------------------- programs
\* e = [v |-> 0 (constant) or 1 (the latest variable), 2 (the parameter), c |-> constant]
Exprs == [v : 0..2, c : {0, 1, 5}]
Callee(i) == {h \in 1..NF : h > i}
Cc(kind, h, e, cond) == [op |-> "cc", kind |-> kind, f |-> h, e |-> e, cond |-> cond]
\* callees: 1..NF functions, 10 setk (stores its continuation, returns its argument), 11 pair (returns two values), 12 get_cc
Stmts(i) == {[op |-> "log", kind |-> "", f |-> 0, e |-> e, cond |-> ""] : e \in {[v |-> 1, c |-> 0]}}
       \union {[op |-> "set", kind |-> "", f |-> 0, e |-> e, cond |-> ""] : e \in Exprs}
       \union {[op |-> "call", kind |-> "", f |-> h, e |-> e, cond |-> ""] : h \in Callee(i) \union {10}, e \in Exprs}
       \union {Cc(k, h, e, c) : k \in {"one", "star", "ign"}, h \in Callee(i) \union {10}, e \in {x \in Exprs : x.v # 0}, c \in {"", "", "none", "alt"}}
       \union {Cc(k, 10, e, c) : k \in {"two", "twostar"}, e \in {x \in Exprs : x.v # 0}, c \in {"", "none"}}
       \union {Cc(k, 11, e, c) : k \in {"two", "star", "twostar"}, e \in {x \in Exprs : x.v # 0}, c \in {"", "none"}}
       \union {Cc("get", 12, e, "") : e \in Exprs}
       \union (IF "k" \in Features THEN {[op |-> "kcall", kind |-> "", f |-> j, e |-> e, cond |-> ""] : j \in 1..2, e \in Exprs} ELSE {})
Rets(i) == {[op |-> "val", f |-> 0, e |-> e] : e \in Exprs}
      \union {[op |-> "tail", f |-> h, e |-> e] : h \in Callee(i) \union {10}, e \in Exprs}
      \union (IF "k" \in Features THEN {[op |-> o, f |-> j, e |-> e] : o \in {"k", "esc"}, j \in 1..2, e \in Exprs} ELSE {})
HasCc(i) == \E p \in 1..Len(prog[i]) : prog[i][p].op = "cc"
Init == prog = <<<<>>, <<>>, <<>>>> /\ ret = <<>> /\ script = <<>> /\ phase = NF /\ exit \in BOOLEAN
\* functions are written from the last to the first
AddStmt == phase \in 1..NF /\ Len(prog[phase]) < MaxLen /\ \E s \in Stmts(phase) : prog' = [prog EXCEPT ![phase] = Append(@, s)] /\ UNCHANGED <<ret, script, phase, exit>>
AddRet == /\ phase \in 1..NF /\ Len(prog[phase]) >= (IF phase = NF THEN 1 ELSE 2)
          /\ \E r \in Rets(phase) : /\ r.op = "esc" => ~HasCc(phase)
                                    /\ ret' = <<r>> \o ret
          /\ phase' = phase - 1 /\ UNCHANGED <<prog, script, exit>>
Script == phase = 0 /\ Len(script) < MaxScript /\ \E j \in 1..4, x \in {2, 30} : script' = Append(script, <<j, x>>) /\ UNCHANGED <<prog, ret, phase, exit>>
Next == AddStmt \/ AddRet \/ Script

\* ------------------------------------------------------------- meaning
Val(e, env) == Norm((CASE e.v = 0 -> 0 [] e.v = 1 -> env[Len(env)] [] e.v = 2 -> env[1]) + e.c)
Id == [fr |-> <<>>, kind |-> "one"]
\* the value that the rest of the body sees, given the values passed to the continuation
Bind(kind, vals) == CASE kind = "one" -> Norm(vals[1])
                      [] kind = "ign" -> 0
                      [] kind = "two" -> Norm(vals[1] * 3 + vals[2])
                      [] kind = "get" -> Norm(vals[1])
                      [] kind = "star" -> LET RECURSIVE Sum(_)
                                              Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q)) IN Norm(Sum(vals) + 10 * Len(vals))
                      [] kind = "twostar" -> LET RECURSIVE Sum(_)
                                                 Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q)) IN Norm(vals[1] * 3 + Sum(Tail(vals)) + 10 * (Len(vals) - 1))
NoneVals(kind) == CASE kind \in {"one", "get"} -> <<-1>> [] kind = "ign" -> <<0>> [] kind = "two" -> <<-1, -1>> [] kind = "star" -> <<>> [] kind = "twostar" -> <<-1>>
KArgs(kind, x) == IF kind \in {"two", "twostar"} THEN <<x, Norm(x + 1)>> ELSE <<x>>
Out(v, S) == [v |-> v, S |-> S]
RECURSIVE Exec(_, _, _, _, _)
\* pass values to a continuation
Ret(vals, frames, S) == IF frames = <<>> THEN Out(vals[1], S)
                        ELSE LET h == Head(frames) IN
                             IF h.f = 0 THEN Out(-1, [S EXCEPT !.log = Append(@, <<0, 1, Bind(h.kind, vals)>>)])      \* the rest of the block: no value
                             ELSE Exec(h.f, h.pc, Append(h.env, Bind(h.kind, vals)), Tail(frames), IF h.kind = "get" THEN [S EXCEPT !.ks = Append(@, [fr |-> frames, kind |-> "get"])] ELSE S)
HeadKind(frames) == IF frames = <<>> THEN "one" ELSE Head(frames).kind
Call(h, x, frames, S) ==
  CASE h <= NF -> Exec(h, 1, <<x>>, frames, S)
    [] h = 10 -> Ret(KArgs(HeadKind(frames), x), frames, [S EXCEPT !.ks = Append(@, [fr |-> frames, kind |-> HeadKind(frames)])])
    [] h = 11 -> Ret(<<x, Norm(x + 1)>>, frames, S)
    [] h = 12 -> Ret(<<x>>, frames, S)
CanK(j, S) == j <= Len(S.ks) /\ S.fuel > 0
Exec(i, pc, env, cc, S) ==
  IF Len(S.log) > 60 \/ Len(S.ks) > 12 THEN Out(-7, [S EXCEPT !.fuel = -1])        \* (only to bound the model: such programs are not emitted)
  ELSE IF pc > Len(prog[i]) THEN
    LET r == ret[i]  x == Val(r.e, env) IN
    CASE r.op = "val" -> Ret(<<x>>, cc, S)
      [] r.op = "tail" -> Call(r.f, x, cc, S)
      [] r.op = "k" -> IF CanK(r.f, S) /\ S.ks[r.f].fr # <<>> THEN LET k == S.ks[r.f] IN Ret(KArgs(k.kind, x), k.fr \o cc, [S EXCEPT !.fuel = @ - 1]) ELSE Ret(<<x>>, cc, S)
      \* override the continuation of a tail call
      [] r.op = "esc" -> IF CanK(r.f, S) /\ S.ks[r.f].kind \notin {"two", "twostar", "get"} THEN LET k == S.ks[r.f] IN Call(IF i < NF THEN NF ELSE 10, x, k.fr, [S EXCEPT !.fuel = @ - 1]) ELSE Ret(<<x>>, cc, S)
  ELSE LET s == prog[i][pc]  x == Val(s.e, env) IN
    CASE s.op = "log" -> Exec(i, pc + 1, env, cc, [S EXCEPT !.log = Append(@, <<i, pc, x>>)])
      [] s.op = "set" -> Exec(i, pc + 1, Append(env, x), cc, S)
      [] s.op = "call" -> LET r == TLCEval(Call(s.f, x, <<>>, S)) IN Exec(i, pc + 1, Append(env, Norm(r.v)), cc, r.S)
      [] s.op = "kcall" -> IF CanK(s.f, S) THEN LET k == S.ks[s.f]
                                                    r == TLCEval(Ret(KArgs(k.kind, x), k.fr, [S EXCEPT !.fuel = @ - 1])) IN Exec(i, pc + 1, Append(env, Norm(r.v)), cc, r.S)
                           ELSE Exec(i, pc + 1, Append(env, 0), cc, S)
      [] s.op = "cc" -> LET fr == <<[f |-> i, pc |-> pc + 1, env |-> env, kind |-> s.kind]>> \o cc IN
                        CASE s.cond = "" \/ x % 2 = 1 -> Call(s.f, x, fr, S)
                          [] s.cond = "none" -> Ret(NoneVals(s.kind), fr, S)
                          [] s.cond = "alt" -> Call(10, Norm(x + 1), fr, S)
RECURSIVE Play(_, _, _)
Play(q, S, out) == IF q = <<>> THEN [out |-> out, S |-> S]
                   ELSE LET j == Head(q)[1]  x == Head(q)[2] IN
                        IF j > Len(S.ks) THEN Play(Tail(q), S, Append(out, -2))
                        ELSE LET k == S.ks[j]  r == TLCEval(Ret(KArgs(k.kind, x), k.fr, S)) IN Play(Tail(q), r.S, Append(out, r.v))
S0 == [log |-> <<>>, ks |-> <<>>, fuel |-> Fuel]
Kops == \E i \in 1..NF : ret[i].op \in {"k", "esc"} \/ \E p \in 1..Len(prog[i]) : prog[i][p].op = "kcall"
\* the program is started by an ordinary call, or by call_cc at the top level of the block
Start(top) == IF top THEN Exec(1, 1, <<3>>, <<[f |-> 0, pc |-> 1, env |-> <<>>, kind |-> "one"]>>, S0) ELSE Exec(1, 1, <<3>>, <<>>, S0)
Run(top) == LET r == TLCEval(Start(top))  p == TLCEval(Play(script, r.S, <<r.v>>)) IN [out |-> p.out, log |-> p.S.log, nks |-> Len(p.S.ks), ok |-> p.S.fuel >= 0]
Complete == phase = 0 /\ Len(script) = MaxScript
Emit == Complete => LET top == exit /\ ~Kops  r == TLCEval(Run(top)) IN
                    (r.ok /\ r.nks > 0) => PrintT("@@" \o ToJson([prog |-> prog, ret |-> ret, script |-> script, top |-> top, r |-> r]))
\* a continuation gives the same result whenever it is resumed, unless the program looks at the mutable state
Pure(i) == ret[i].op \in {"val", "tail"} /\ \A p \in 1..Len(prog[i]) : prog[i][p].op # "kcall"
MultiShot == Complete => LET r == TLCEval(Start(FALSE)) IN
                         (r.S.fuel >= 0 /\ \A i \in 1..NF : Pure(i)) =>
                           \A j \in 1..Len(r.S.ks) : LET k == r.S.ks[j]  one == TLCEval(Ret(KArgs(k.kind, 7), k.fr, r.S))  two == TLCEval(Ret(KArgs(k.kind, 7), k.fr, one.S)) IN
                               (one.S.fuel >= 0 /\ two.S.fuel >= 0) => one.v = two.v
=============================================================================
