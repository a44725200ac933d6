-------------------------------- MODULE Tail --------------------------------
(* Tail calls (unpythonic.tco) and functional loops (unpythonic.fploop).     *)
(* State: the stack of running computations (outermost first), one entry     *)
(* per non-tail call.  `jump' and `loop' replace the running activation of   *)
(* the top entry (they never grow the stack); a return, a break or the end   *)
(* of an iterable removes the entry and delivers a value to the code that    *)
(* started it; an exception removes entries down to a guarded call.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Funcs,      \* function names usable as jump targets
          Tramp,      \* those that are decorated themselves (callable normally)
          Loops,      \* subset of {"l","lo","b","bo"}: looped, looped_over, breakably_...
          Chains,     \* lengths of long jump chains
          Sizes,      \* numbers of elements of the iterables
          MaxLen, MaxDepth
VARIABLES st, hist
vars == <<st, hist>>

Max(S) == CHOOSE x \in S : \A y \in S : x >= y
N == Len(hist) + 1
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)

\* k: what the running body is; own: what the entry was started as; x: index of the
\* current element; n: number of elements; acc, ext: accumulator and extra argument
\* bad: the iterable raises an exception after its n elements instead of ending
E(k, fn, n, acc, g) == [k |-> k, own |-> k, id |-> N, fn |-> fn, x |-> IF n > 0 THEN 1 ELSE 0, n |-> n,
                        acc |-> acc, ext |-> 0, guard |-> g, bad |-> FALSE]

View(e) == [id |-> e.id, k |-> e.k, fn |-> e.fn, x |-> e.x, acc |-> e.acc, ext |-> e.ext]
Nowhere == [id |-> 0, k |-> "", fn |-> "", x |-> 0, acc |-> 0, ext |-> 0]

Do(op, arg, s, how, of, v) ==
  /\ st' = s
  /\ hist' = Append(hist, [op |-> op, arg |-> arg, depth |-> Len(s),
                           at |-> IF s = <<>> THEN Nowhere ELSE View(Top(s)),
                           how |-> how, of |-> of, v |-> v])
A0 == [fn |-> "", n |-> 0, a |-> 0, e |-> 0, g |-> FALSE, b |-> FALSE]

\* ordinary (non-tail) call of a decorated function
Call == /\ Len(st) < MaxDepth
        /\ \E f \in Tramp, g \in BOOLEAN :
             Do("call", [A0 EXCEPT !.fn = f, !.g = g], Append(st, E("f", f, 0, N, g)), "enter", N, 0)

\* an exception: down to the innermost guarded computation, or to the top level
Throw(op, arg) == LET gs == {i \in 1..Len(st) : st[i].guard}
                  IN IF gs = {} THEN Do(op, arg, <<>>, "exc", 0, N)
                     ELSE Do(op, arg, SubSeq(st, 1, Max(gs) - 1), "exc", st[Max(gs)].id, N)

StartLoop == /\ Len(st) < MaxDepth
             /\ \E k \in Loops, g \in BOOLEAN :
                \E n \in (IF k \in {"lo", "bo"} THEN Sizes ELSE {0}), b \in (IF k \in {"lo", "bo"} THEN BOOLEAN ELSE {FALSE}) :
                  LET arg == [A0 EXCEPT !.n = n, !.g = g, !.b = b] IN
                  IF k \in {"lo", "bo"} /\ n = 0
                  THEN IF b THEN (IF g THEN Do(k, arg, st, "exc", N, N) ELSE Throw(k, arg))
                       ELSE Do(k, arg, st, "value", N, N)
                  ELSE Do(k, arg,
                          Append(st, [E(k, "", n, IF k \in {"lo", "bo"} THEN N ELSE 0, g) EXCEPT !.bad = b]), "enter", N, 0)

Finish(op, arg, v) == Do(op, arg, Pop(st), "value", Top(st).id, v)

Jump == /\ st # <<>>
        /\ \E f \in Funcs, a \in BOOLEAN :     \* a: whether an argument is given, or left at its default
             Do("jump", [A0 EXCEPT !.fn = f, !.a = IF a THEN 1 ELSE 0],
                Append(Pop(st), [Top(st) EXCEPT !.k = "f", !.fn = f, !.acc = IF a THEN N ELSE 0, !.x = 0, !.ext = 0]), "tail", Top(st).id, 0)

\* k jumps in a row, cycling through two functions
Chain == /\ st # <<>>
         /\ \E k \in Chains, f \in Funcs, g \in Funcs :
              Do("chain", [A0 EXCEPT !.fn = f, !.n = k, !.a = g],
                 Append(Pop(st), [Top(st) EXCEPT !.k = "f", !.fn = IF k % 2 = 1 THEN f ELSE g, !.acc = N, !.x = 0, !.ext = 0]),
                 "tail", Top(st).id, 0)

\* loop(): next iteration.  a = 0: no accumulator given; e: whether an extra argument is given
Loop == /\ st # <<>> /\ Top(st).k \in Loops
        /\ \E a \in BOOLEAN, e \in BOOLEAN :
           /\ (e => a)     \* the extra argument follows the accumulator
           /\ LET t == Top(st)
                  over == t.k \in {"lo", "bo"}
                  na == IF a THEN N ELSE IF over THEN t.acc ELSE 0
                  ne == IF e THEN N ELSE 0
                  arg == [A0 EXCEPT !.a = IF a THEN 1 ELSE 0, !.e = IF e THEN 1 ELSE 0]
              IN IF over /\ t.x = t.n THEN (IF t.bad THEN Throw("loop", arg) ELSE Finish("loop", arg, na))
                 ELSE Do("loop", arg, Append(Pop(st), [t EXCEPT !.acc = na, !.ext = ne, !.x = IF over THEN t.x + 1 ELSE 0]),
                         "tail", t.id, 0)

\* cnt(): next iteration, keeping the accumulator
Cnt == /\ st # <<>> /\ Top(st).k = "bo"
       /\ \E e \in BOOLEAN :
            LET t == Top(st)
                arg == [A0 EXCEPT !.e = IF e THEN 1 ELSE 0]
            IN IF t.x = t.n THEN (IF t.bad THEN Throw("cnt", arg) ELSE Finish("cnt", arg, t.acc))
               ELSE Do("cnt", arg, Append(Pop(st), [t EXCEPT !.ext = IF e THEN N ELSE 0, !.x = t.x + 1]), "tail", t.id, 0)

\* brk of any enclosing breakable loop, from anywhere inside it
Brk == \E i \in {j \in 1..Len(st) : st[j].own \in {"b", "bo"}} :
         Do("brk", [A0 EXCEPT !.n = st[i].id], SubSeq(st, 1, i - 1), "value", st[i].id, N)

Return == /\ st # <<>> /\ Finish("return", A0, N)

Raise == st # <<>> /\ Throw("raise", A0)

Init == st = <<>> /\ hist = <<>>
Next == Len(hist) < MaxLen /\ (Call \/ StartLoop \/ Jump \/ Chain \/ Loop \/ Cnt \/ Brk \/ Return \/ Raise)
Emit == Len(hist) # MaxLen \/ PrintT("@@" \o ToJson(hist))

Last == hist'[Len(hist')]
\* tail transfers never grow the stack, and touch only the top entry
TailConstant == [][(Last.op \in {"jump", "chain", "loop", "cnt"} /\ Last.how # "exc") =>
                     /\ Len(st') <= Len(st)
                     /\ SubSeq(st', 1, Len(st) - 1) = Pop(st)]_vars
\* the code that started a computation is told its value exactly once, and finds itself as it left
CallerUntouched == [][Last.how \in {"value", "exc"} => st' = SubSeq(st, 1, Len(st'))]_vars
BreakReaches == [][Last.op = "brk" => (Last.of = Last.arg.n /\ \A i \in 1..Len(st') : st'[i].id # Last.of)]_vars
=============================================================================
