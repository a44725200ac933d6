------------------------------- MODULE Views -------------------------------
(* Views into sequences (unpythonic.collections.view, roview).               *)
(* State: the underlying list, and a view v1 of it and a view v2 of v1, each *)
(* given by a slice. What a view shows is always the current contents of the *)
(* underlying list, sliced; writing through a view changes exactly the       *)
(* elements it shows.                                                        *)
EXTENDS Integers, Sequences, TLC, Json, Slices
CONSTANTS S1s, S2s, BaseLen, MaxLen, MaxHist, Assigns
VARIABLES base, s1, s2, next, hist
vars == <<base, s1, s2, next, hist>>

Ix1(n) == Pick(Iota(n), s1)
Ix(j, n) == IF j = 1 THEN Ix1(n) ELSE Pick(Ix1(n), s2)
At(bb, ix) == TLCEval([i \in 1..Len(ix) |-> bb[ix[i] + 1]])
ShowIn(bb, j) == At(bb, Ix(j, Len(bb)))
Show(j) == ShowIn(base, j)

Init == /\ s1 \in S1s /\ s2 \in S2s /\ base = [i \in 1..BaseLen |-> i] /\ next = BaseLen + 1 /\ hist = <<>>
Log(o) == LET bb == base' IN hist' = Append(hist, o @@ [b |-> bb, v1 |-> ShowIn(bb, 1), v2 |-> ShowIn(bb, 2)])
Same == UNCHANGED <<s1, s2>>
O(op, j, k, x) == [op |-> op, j |-> j, k |-> k, x |-> x]

Append_ == Len(base) < MaxLen /\ base' = Append(base, next) /\ next' = next + 1 /\ Log(O("append", 0, <<>>, <<next>>))
Pop == base # <<>> /\ base' = SubSeq(base, 1, Len(base) - 1) /\ next' = next /\ Log(O("pop", 0, <<>>, <<>>))
Insert == Len(base) < MaxLen /\ base' = <<next>> \o base /\ next' = next + 1 /\ Log(O("insert", 0, <<>>, <<next>>))
Poke(i) == i < Len(base) /\ base' = [base EXCEPT ![i + 1] = next] /\ next' = next + 1 /\ Log(O("poke", 0, <<i>>, <<next>>))
\* one element, through view j
SetItem(j, k) ==
  LET ix == Ix(j, Len(base))
      n == Len(ix)
      ok == 0 - n <= k /\ k < n
  IN /\ base' = IF ok THEN [base EXCEPT ![ix[(k % n) + 1] + 1] = next] ELSE base
     /\ next' = IF ok THEN next + 1 ELSE next
     /\ Log(O(IF ok THEN "set" ELSE "setbad", j, <<k>>, <<next>>))
\* a slice of the view: as many values as it selects, or one value for all of them
SetSlice(j, s, scalar) ==
  LET ix == Pick(Ix(j, Len(base)), s)
      n == Len(ix)
      val(i) == IF scalar THEN next ELSE next + i - 1
  IN /\ n > 0
     /\ base' = TLCEval([p \in 1..Len(base) |-> IF \E i \in 1..n : ix[i] + 1 = p THEN val(CHOOSE i \in 1..n : ix[i] + 1 = p) ELSE base[p]])
     /\ next' = next + n
     /\ Log(O(IF scalar THEN "setscalar" ELSE "setslice", j, s, [i \in 1..n |-> val(i)]))
Reverse(j) ==
  LET ix == Ix(j, Len(base))
      n == Len(ix)
  IN /\ n > 0
     /\ base' = TLCEval([p \in 1..Len(base) |-> IF \E i \in 1..n : ix[i] + 1 = p THEN base[ix[n + 1 - (CHOOSE i \in 1..n : ix[i] + 1 = p)] + 1] ELSE base[p]])
     /\ next' = next /\ Log(O("reverse", j, <<>>, <<>>))
Next == /\ Len(hist) < MaxHist /\ Same
        /\ \/ Append_ \/ Pop \/ Insert \/ Poke(0) \/ Poke(2)
           \/ \E j \in {1, 2} : \/ \E k \in {0, 1, -1, 3, -4} : SetItem(j, k)
                                \/ \E s \in Assigns, sc \in BOOLEAN : SetSlice(j, s, sc)
                                \/ Reverse(j)
\* writing through a view never changes an element outside it, nor the length
Frame == [][Len(base') # Len(base) \/ \A p \in 1..Len(base) :
              (hist'[Len(hist')].j > 0 /\ base'[p] # base[p]) => \E i \in 1..Len(Ix(hist'[Len(hist')].j, Len(base))) : Ix(hist'[Len(hist')].j, Len(base))[i] + 1 = p]_vars
Nested == \A i \in 1..Len(Show(2)) : \E k \in 1..Len(Show(1)) : Show(2)[i] = Show(1)[k]
EmitAll == (Len(hist) = MaxHist) => PrintT("@@" \o ToJson([s1 |-> s1, s2 |-> s2, n |-> BaseLen, h |-> hist]))
=============================================================================
