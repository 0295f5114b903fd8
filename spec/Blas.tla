-------------------------------- MODULE Blas --------------------------------
(***************************************************************************)
(* When a step may be done by tensordot followed by a transposition, and   *)
(* how such a step is classified.  l and r are the label sequences of the  *)
(* two operands (in the order in which they are contracted), res the set   *)
(* of labels of the result, lsh and rsh the shapes.                        *)
(***************************************************************************)
EXTENDS Einsum

NoRepeat(w) == \A i, j \in 1..Len(w) : w[i] = w[j] => i = j
At(w, x) == CHOOSE i \in 1..Len(w) : w[i] = x
Summed(l, r, res) == (Range1(l) \cup Range1(r)) \ res
Eligible(l, r, res, lsh, rsh) ==
  /\ NoRepeat(l) /\ NoRepeat(r)
  /\ Summed(l, r, res) = Range1(l) \cap Range1(r)          \* summed labels are exactly the common ones
  /\ \A x \in Range1(l) \cap Range1(r) : lsh[At(l, x)] = rsh[At(r, x)]

Suffix(w, k) == SubSeq(w, Len(w) - k + 1, Len(w))
Prefix(w, k) == SubSeq(w, 1, k)
Class(l, r, res) ==
  LET S == Summed(l, r, res) k == Cardinality(S) IN
  IF k = 0 THEN "OUTER/EINSUM"
  ELSE IF l = r THEN "DOT"
  ELSE IF Range1(l) = Range1(r) THEN "DOT/EINSUM"
  ELSE IF Suffix(l, k) = Prefix(r, k) \/ Prefix(l, k) = Suffix(r, k) \/ Suffix(l, k) = Suffix(r, k) \/ Prefix(l, k) = Prefix(r, k) THEN "GEMM"
  ELSE IF Range1(l) = S \/ Range1(r) = S THEN "GEMV/EINSUM"
  ELSE "TDOT"
Flag(l, r, res, lsh, rsh) == IF Eligible(l, r, res, lsh, rsh) THEN Class(l, r, res) ELSE "False"
PrefersEinsum(f) == f \in {"OUTER/EINSUM", "DOT/EINSUM", "GEMV/EINSUM"}

(* tensordot over the common labels: the kept labels of l, then those of r *)
TdotLabels(l, r, S) == SelectSeq(l, LAMBDA x : x \notin S) \o SelectSeq(r, LAMBDA x : x \notin S)
=============================================================================
