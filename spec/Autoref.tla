------------------------------ MODULE Autoref ------------------------------
(* with autoref[obj]: reading a name inside the block reads the attribute of *)
(* that name of the innermost autoref'd object that has one now; if none has *)
(* one, the name is an ordinary variable. Assigning and deleting names never *)
(* touches the objects. The object of a block is whatever its expression     *)
(* evaluates to on entry, once, under the same rule in the outer blocks.     *)
(* A closure made in a block reads in the blocks that enclose its text.      *)
(* A behaviour is a program: its steps, in program order.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, MaxDepth
VARIABLES attrs,     \* [object -> [names it has -> value]]
          vars,      \* [bound names -> value]
          stack,     \* the objects of the blocks we are in, outermost first
          closures,  \* [made so far -> [n, stack]]
          hist

Objs == {101, 102, 103}
Data == {"a", "b"}                   \* names of data; their values are numbers or None
Names == Data \union {"p"}           \* the value of p is always an object
\* a new value at each step (0 is None), so that every value tells where it comes from
ValuesOf(n) == IF n = "p" THEN {101 + (Len(hist) % 3)} ELSE {IF Len(hist) % 5 = 4 THEN 0 ELSE Len(hist) + 1}
Unbound == 0 - 1

RECURSIVE Find(_, _, _, _)
Find(n, st, at, vs) ==
  IF st = <<>> THEN (IF n \in DOMAIN vs THEN vs[n] ELSE Unbound)
  ELSE LET o == st[Len(st)] IN IF n \in DOMAIN at[o] THEN at[o][n] ELSE Find(n, SubSeq(st, 1, Len(st) - 1), at, vs)
Read(n, st) == Find(n, st, attrs, vars)
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
\* see: what a, b, p, q1... mean in the innermost block after the step
Step(op, n, v, r) == hist' = Append(hist, [op |-> op, n |-> n, v |-> v, r |-> r, see |-> [x \in Names \union {"q1", "q2", "q3"} |-> Find(x, stack', attrs', vars')]])

Init == /\ attrs = [o \in Objs |-> [x \in {} |-> 0]] /\ vars = [x \in {"p"} |-> 101] /\ stack = <<>> /\ closures = <<>> /\ hist = <<>>
\* each block has a name of its own: naming a block after a variable that is assigned again changes its object
Qs == <<"q1", "q2", "q3">>
NextQ == Cardinality({i \in 1..3 : Qs[i] \in DOMAIN vars}) + 1
EnterNamed == /\ Len(stack) < MaxDepth /\ NextQ <= 3
              /\ LET o == Read("p", stack) IN
                   /\ o # Unbound /\ stack' = Append(stack, o) /\ vars' = Put(vars, Qs[NextQ], o) /\ UNCHANGED <<attrs, closures>> /\ Step("enteras", Qs[NextQ], 0, o)
EnterPlain == /\ Len(stack) < MaxDepth
              /\ LET o == Read("p", stack) IN o # Unbound /\ stack' = Append(stack, o) /\ UNCHANGED <<attrs, vars, closures>> /\ Step("enter", "p", 0, o)
Leave == /\ stack # <<>> /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<attrs, vars, closures>> /\ Step("leave", "", 0, 0)
Assign == \E n \in Names : \E v \in ValuesOf(n) : vars' = Put(vars, n, v) /\ UNCHANGED <<attrs, stack, closures>> /\ Step("assign", n, v, 0)
Delete == \E n \in Data \cap DOMAIN vars : vars' = Drop(vars, n) /\ UNCHANGED <<attrs, stack, closures>> /\ Step("del", n, 0, 0)
Increment == \E n \in Data \cap DOMAIN vars : vars[n] # 0 /\ vars' = Put(vars, n, vars[n] + 20) /\ UNCHANGED <<attrs, stack, closures>> /\ Step("incr", n, 0, 0)
SetAttr == \E o \in Objs, n \in Names : \E v \in ValuesOf(n) : attrs' = [attrs EXCEPT ![o] = Put(@, n, v)] /\ UNCHANGED <<vars, stack, closures>> /\ Step("setattr", n, v, o)
DelAttr == \E o \in Objs : \E n \in DOMAIN attrs[o] : attrs' = [attrs EXCEPT ![o] = Drop(@, n)] /\ UNCHANGED <<vars, stack, closures>> /\ Step("delattr", n, 0, o)
Close == /\ Len(closures) < 2 /\ UNCHANGED <<attrs, vars, stack>>
         /\ \E n \in Names : closures' = Append(closures, [n |-> n, st |-> stack]) /\ Step("close", n, Len(closures) + 1, 0)
CallIt == /\ UNCHANGED <<attrs, vars, stack, closures>>
          /\ \E i \in DOMAIN closures : Step("call", "", i, Read(closures[i].n, closures[i].st))
Next == /\ Len(hist) < MaxLen
        /\ EnterNamed \/ EnterPlain \/ Leave \/ Assign \/ Delete \/ Increment \/ SetAttr \/ DelAttr \/ Close \/ CallIt
Emit == Len(hist) # MaxLen \/ PrintT("@@" \o ToJson(hist))

\* what is written inside a block never changes an object, except through the object itself
NoStore == [][attrs' # attrs => hist'[Len(hist')].op \in {"setattr", "delattr"}]_<<attrs, vars, stack, closures, hist>>
\* the innermost object that has the name wins
Innermost == \A n \in Names : stack # <<>> /\ n \in DOMAIN attrs[stack[Len(stack)]] => Read(n, stack) = attrs[stack[Len(stack)]][n]
=============================================================================
