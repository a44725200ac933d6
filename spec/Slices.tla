------------------------------- MODULE Slices -------------------------------
(* Python slices over sequences. None is represented by the constant NN.     *)
EXTENDS Integers, Sequences, TLC
NN == 99
Clip(k, lo, hi) == IF k < lo THEN lo ELSE IF k > hi THEN hi ELSE k
Count(a, b, st) == LET n == IF st > 0 THEN (IF a < b THEN (b - a - 1) \div st + 1 ELSE 0) ELSE (IF a > b THEN (a - b - 1) \div (0 - st) + 1 ELSE 0)
                   IN [i \in 1..n |-> a + (i - 1) * st]
\* the (zero-based) indices a slice selects from a sequence of length n, in order
Indices(s, n) ==
  LET st == IF s[3] = NN THEN 1 ELSE s[3]
      lo == IF st > 0 THEN 0 ELSE -1
      hi == IF st > 0 THEN n ELSE n - 1
      fix(k) == Clip(IF k < 0 THEN k + n ELSE k, lo, hi)
      a == IF s[1] = NN THEN (IF st > 0 THEN 0 ELSE n - 1) ELSE fix(s[1])
      b == IF s[2] = NN THEN (IF st > 0 THEN n ELSE -1) ELSE fix(s[2])
  IN Count(a, b, st)
\* apply slices one after another to a sequence of indices
Pick(seq, s) == LET ix == TLCEval(Indices(s, Len(seq))) IN TLCEval([i \in 1..Len(ix) |-> seq[ix[i] + 1]])
Iota(n) == TLCEval([i \in 1..n |-> i - 1])
=============================================================================
