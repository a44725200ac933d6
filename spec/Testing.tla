------------------------------ MODULE Testing ------------------------------
(* The test framework: sessions, nested testsets, and the test macros. The   *)
(* state is the stack of open blocks and the four counters; an operation is  *)
(* a line of the test module. After an exception or terminate() the lines up *)
(* to the end of the blocks it leaves are not run (mode "skip").             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxDepth, MaxLines,
          Leaky       \* TRUE: the known deviation of the code, a testset swallows the exit of the session
VARIABLES st, cnt, skip, out, prog

Zero == [r |-> 0, f |-> 0, e |-> 0, w |-> 0]
Frame(k, p, live) == [k |-> k, p |-> p, c |-> cnt, live |-> live]
Innermost(P(_)) == LET S == {i \in 1..Len(st) : P(st[i])} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
IsSet(f) == f.k = "set"
IsCatch(f) == f.k \in {"quiet", "loud"}
Catch == LET i == Innermost(IsCatch) IN i = 0 \/ st[i].k = "loud"
Sets == Len(SelectSeq(st, IsSet))
HasPost(f) == f.k = "set" /\ f.p
Post == Innermost(HasPost) # 0

\* lines: what, how the tested expression behaves
TestOps == [op : {"test"}, b : {"ok", "falsy", "raise", "signal", "cerror", "inner"}]
           \union [op : {"test_raises"}, b : {"ok", "falsy", "raise", "sub", "other", "signal", "cerror"}]
           \union [op : {"test_signals"}, b : {"ok", "raise", "signal", "cerror", "subsig", "othersig"}]
           \union [op : {"fail", "error", "warn"}, b : {""}]
Stray == [op : {"stray"}, b : {"signal", "cerror", "errorsig", "warnsig", "raise"}]
Term == [op : {"terminate"}, b : {""}]
Opens == [op : {"open"}, b : {"plain", "post", "quiet", "loud"}]
Close == [op |-> "close", b |-> ""]

\* verdict of a test line: pass, fail, error, warn
Verdict(l, catch) ==
  CASE l.op = "test" -> (CASE l.b = "ok" -> "pass" [] l.b = "falsy" -> "fail" [] l.b = "raise" -> "error" [] l.b = "inner" -> "pass"
                           [] l.b = "signal" -> IF catch THEN "error" ELSE "pass" [] l.b = "cerror" -> "error")
    [] l.op = "test_raises" -> (CASE l.b \in {"ok", "falsy"} -> "fail" [] l.b \in {"raise", "sub"} -> "pass" [] l.b = "other" -> "error"
                           [] l.b = "signal" -> IF catch THEN "error" ELSE "fail" [] l.b = "cerror" -> "error")
    [] l.op = "test_signals" -> (CASE l.b = "ok" -> "fail" [] l.b = "raise" -> "error"
                           [] l.b \in {"signal", "subsig"} -> IF catch THEN "pass" ELSE "fail"
                           [] l.b = "othersig" -> IF catch THEN "error" ELSE "fail"
                           [] l.b = "cerror" -> IF catch THEN "pass" ELSE "error")
    [] l.op \in {"fail", "error", "warn"} -> l.op
Count(v, c) == CASE v = "pass" -> [c EXCEPT !.r = @ + 1]
                 [] v = "fail" -> [c EXCEPT !.r = @ + 1, !.f = @ + 1]
                 [] v = "error" -> [c EXCEPT !.r = @ + 1, !.e = @ + 1]
                 [] v = "warn" -> [c EXCEPT !.w = @ + 1]
\* what is printed, with its level of indentation
Pr(k, lv) == [k |-> k, lv |-> lv, r |-> 0, f |-> 0, e |-> 0, w |-> 0]
PrEnd(lv, a, b) == [k |-> "END", lv |-> lv, r |-> b.r - a.r, f |-> b.f - a.f, e |-> b.e - a.e, w |-> b.w - a.w]
Say(v) == IF v = "fail" THEN "FAIL" ELSE IF v = "error" THEN "ERROR" ELSE "WARNING"
Terminating == Pr("TERMINATING", 0)

Live == skip = "no"
TestLine(l) ==
  LET v == Verdict(l, Catch)
      \* a test inside the tested expression fails by itself; the tested expression goes on
      c0 == IF l.b = "inner" THEN Count("fail", cnt) ELSE cnt
      o0 == IF l.b = "inner" THEN <<Pr("FAIL", Sets)>> ELSE <<>>
  IN IF l.b = "inner" /\ Post THEN \* the post-processing of the inner failure ends the session from inside the tested expression: recorded as an error of the outer test
        /\ cnt' = Count("error", c0) /\ out' = out \o <<Pr("FAIL", Sets), Terminating, Pr("ERROR", Sets), Terminating>> /\ skip' = "exit"
     ELSE
        /\ cnt' = Count(v, c0)
        /\ out' = out \o o0 \o (IF v = "pass" THEN <<>> ELSE <<Pr(Say(v), Sets)>> \o (IF Post THEN <<Terminating>> ELSE <<>>))
        /\ skip' = IF v # "pass" /\ Post THEN "exit" ELSE "no"
StrayLine(b) ==
  LET n == Sets
      err(c, k) == [c EXCEPT !.r = @ + k, !.e = @ + k]
      all == [i \in 1..n |-> Pr("SIGNAL", n + 1 - i)]          \* every testset, from the innermost out
  IN CASE b = "raise" -> cnt' = cnt /\ out' = out /\ skip' = "exc"
       [] b # "raise" /\ Catch /\ Post -> cnt' = err(cnt, 1) /\ out' = out \o <<Pr("SIGNAL", n), Terminating>> /\ skip' = "exit"
       [] b \in {"cerror", "warnsig"} /\ Catch /\ ~Post -> cnt' = err(cnt, 1) /\ out' = Append(out, Pr("SIGNAL", n)) /\ skip' = "no"
       [] b = "signal" /\ Catch /\ ~Post -> cnt' = err(cnt, n) /\ out' = out \o all /\ skip' = "no"
       [] b = "errorsig" /\ Catch /\ ~Post -> cnt' = err(cnt, n) /\ out' = out \o all /\ skip' = "exc"
       [] b \in {"signal", "warnsig"} /\ ~Catch -> cnt' = cnt /\ out' = out /\ skip' = "no"
       [] b \in {"cerror", "errorsig"} /\ ~Catch -> cnt' = cnt /\ out' = out /\ skip' = "exc"
DoOpen(l) ==
  IF ~Live THEN st' = Append(st, Frame("dead", FALSE, FALSE)) /\ UNCHANGED <<cnt, skip, out>>
  ELSE IF l.b \in {"quiet", "loud"} THEN st' = Append(st, Frame(l.b, FALSE, TRUE)) /\ UNCHANGED <<cnt, skip, out>>
  ELSE st' = Append(st, Frame("set", l.b = "post", TRUE)) /\ out' = Append(out, Pr("BEGIN", Sets)) /\ UNCHANGED <<cnt, skip>>
DoClose ==
  LET f == st[Len(st)]
      lv == Sets - 1
  IN /\ st' = SubSeq(st, 1, Len(st) - 1)
     /\ IF f.k # "set" THEN UNCHANGED <<cnt, skip, out>>
        ELSE IF skip = "exc"
        THEN LET c2 == [cnt EXCEPT !.r = @ + 1, !.e = @ + 1] IN
             cnt' = c2 /\ skip' = "no" /\ out' = out \o <<Pr("EXCEPTION", lv + 1), PrEnd(lv, f.c, c2)>>
        ELSE cnt' = cnt /\ skip' = (IF Leaky THEN "no" ELSE skip) /\ out' = Append(out, PrEnd(lv, f.c, cnt))

Init == st = <<[k |-> "set", p |-> FALSE, c |-> Zero, live |-> TRUE]>> /\ cnt = Zero /\ skip = "no" /\ out = <<Pr("BEGIN", 0)>> /\ prog = <<>>
Next == /\ st # <<>>
        /\ \/ /\ Len(prog) < MaxLines
              /\ \E l \in TestOps \union Stray \union Term :
                   /\ prog' = Append(prog, l) /\ st' = st
                   /\ IF ~Live THEN UNCHANGED <<cnt, skip, out>>
                      ELSE IF l \in TestOps THEN TestLine(l)
                      ELSE IF l \in Stray THEN StrayLine(l.b)
                      ELSE skip' = "exit" /\ out' = Append(out, Terminating) /\ UNCHANGED cnt
           \/ /\ Len(prog) < MaxLines /\ Len(st) < MaxDepth
              /\ \E l \in Opens : prog' = Append(prog, l) /\ DoOpen(l)
           \/ prog' = Append(prog, Close) /\ DoClose
\* every line that ran is accounted for once; passes are never negative
Balanced == cnt.r >= cnt.f + cnt.e /\ \A i \in 1..Len(st) : st[i].c.r <= cnt.r
Finished == st = <<>>
EmitCase == (Finished /\ Len(prog) > 2) => PrintT("@@" \o ToJson([prog |-> prog, out |-> out, cnt |-> cnt]))
=============================================================================
