------------------------------- MODULE GMemo -------------------------------
(* Memoized generators (unpythonic.gmemo).                                   *)
(* State, per argument value k: how far the one underlying source has been   *)
(* advanced, and how it ended; per consumer: which k, and its own position.  *)
(* Whatever the interleaving: the source of k is started at most once, each  *)
(* of its items is produced exactly once, and every consumer receives the    *)
(* items of the source in order, from the first one, ending as it ends.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Keys,        \* argument values, <<length, how it ends>>
          Consumers, MaxLen
VARIABLES prod,        \* [Keys -> items produced so far]
          ended,       \* [Keys -> BOOLEAN]
          cons,        \* [consumers created -> [k, pos]]
          hist, l, tid

vars == <<prod, ended, cons, hist, l, tid>>

Length(k) == k[1]
Fails(k) == k[2] = "raise"
EmptyF == [x \in {} |-> 0]

Init == /\ prod = [k \in Keys |-> 0] /\ ended = [k \in Keys |-> FALSE] /\ cons = EmptyF
        /\ hist = <<>> /\ l = 0 /\ tid = 0

\* what consumer c gets next: an item (its index, from 1), "raise", or "stop"
Answer(c) ==
  LET k == cons[c].k
      p == cons[c].pos + 1
  IN IF p <= Length(k) THEN p ELSE IF Fails(k) /\ p = Length(k) + 1 THEN 1000 ELSE 2000

New(c) == \E k \in Keys :
  /\ c \notin DOMAIN cons
  /\ cons' = [d \in DOMAIN cons \union {c} |-> IF d = c THEN [k |-> k, pos |-> 0] ELSE cons[d]]
  /\ hist' = Append(hist, [op |-> "new", c |-> c, k |-> k, r |-> 0, n |-> 0, items |-> 0, fail |-> FALSE])
  /\ UNCHANGED <<prod, ended>>

NextItem(c) ==
  /\ c \in DOMAIN cons
  /\ LET k == cons[c].k
         a == Answer(c)
         p == cons[c].pos + 1
     IN /\ cons' = [cons EXCEPT ![c].pos = IF a = 2000 THEN @ ELSE @ + 1]
        /\ prod' = [prod EXCEPT ![k] = IF a < 1000 /\ p > @ THEN p ELSE @]
        /\ ended' = [ended EXCEPT ![k] = @ \/ a >= 1000]
        \* n: how many items the source has been asked for in all; items, fail: the readable part, and whether the exception is its last entry
        /\ hist' = Append(hist, [op |-> "next", c |-> c, k |-> k, r |-> a, n |-> prod'[k], items |-> prod'[k], fail |-> (ended'[k] /\ Fails(k))])

Next == /\ Len(hist) < MaxLen /\ UNCHANGED <<l, tid>>
        /\ \E c \in Consumers :
             /\ \A d \in Consumers : d < c => d \in DOMAIN cons      \* create them in order
             /\ New(c) \/ NextItem(c)
Emit == Len(hist) # MaxLen \/ PrintT("@@" \o ToJson(hist))

\* every consumer's position is covered by what has been produced
Covered == \A c \in DOMAIN cons : LET k == cons[c].k IN
             cons[c].pos <= prod[k] + (IF Fails(k) /\ ended[k] THEN 1 ELSE 0)
OnlyForward == [][\A k \in Keys : prod'[k] >= prod[k] /\ prod'[k] <= prod[k] + 1]_vars

(* ---------------------- recorded concurrent traces --------------------- *)
\* events: new c k | start k | item k i | end k | got c r
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid][l + 1]
KeyOf(e) == <<e.k[1], e.k[2]>>

TraceInit == /\ prod = EmptyF /\ ended = EmptyF /\ cons = EmptyF /\ hist = <<>> /\ l = 0
             /\ tid \in 1..Len(Traces)
TNew == /\ Ev.e = "new"
        /\ cons' = [d \in DOMAIN cons \union {Ev.c} |-> IF d = Ev.c THEN [k |-> KeyOf(Ev), pos |-> 0] ELSE cons[d]]
        /\ UNCHANGED <<prod, ended>>
TStart == /\ Ev.e = "start" /\ KeyOf(Ev) \notin DOMAIN prod      \* at most one source per argument value
          /\ prod' = [k \in DOMAIN prod \union {KeyOf(Ev)} |-> IF k = KeyOf(Ev) THEN 0 ELSE prod[k]]
          /\ ended' = [k \in DOMAIN ended \union {KeyOf(Ev)} |-> IF k = KeyOf(Ev) THEN FALSE ELSE ended[k]]
          /\ UNCHANGED cons
TItem == /\ Ev.e = "item" /\ Ev.i = prod[KeyOf(Ev)] + 1 /\ Ev.i <= Length(KeyOf(Ev))
         /\ prod' = [prod EXCEPT ![KeyOf(Ev)] = Ev.i]
         /\ UNCHANGED <<ended, cons>>
TEnd == /\ Ev.e = "end" /\ ~ended[KeyOf(Ev)] /\ prod[KeyOf(Ev)] = Length(KeyOf(Ev))
        /\ ended' = [ended EXCEPT ![KeyOf(Ev)] = TRUE]
        /\ UNCHANGED <<prod, cons>>
TGot == /\ Ev.e = "got" /\ Ev.r = Answer(Ev.c)
        /\ LET k == cons[Ev.c].k IN IF Ev.r < 1000 THEN prod[k] >= Ev.r ELSE ended[k]
        /\ cons' = [cons EXCEPT ![Ev.c].pos = IF Ev.r = 2000 THEN @ ELSE @ + 1]
        /\ UNCHANGED <<prod, ended>>
TraceNext == /\ l < Len(Traces[tid])
             /\ TNew \/ TStart \/ TItem \/ TEnd \/ TGot
             /\ l' = l + 1 /\ UNCHANGED <<hist, tid>>
TraceEmit == PrintT("@@" \o ToJson([t |-> tid, n |-> l]))
=============================================================================
