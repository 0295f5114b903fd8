------------------------------- MODULE MC_Blas -------------------------------
(* For all pairs of small operands: an eligible step is the tensordot over *)
(* the common labels up to the order of the result's labels, and an        *)
(* ineligible one has no such form.  All pairs are emitted for replay.     *)
EXTENDS Blas, TLC, Json
CONSTANTS MaxRank, MaxLab, Emit
VARIABLES l, r, res, bc, done
vars == <<l, r, res, bc, done>>
Words == UNION { [1..k -> 1..MaxLab] : k \in 0..MaxRank }
(* bc = 0: all sizes agree; bc = x: label x has size 1 in the left operand *)
Dim(x) == IF x % 2 = 1 THEN 2 ELSE 3
ShL == [i \in 1..Len(l) |-> IF l[i] = bc THEN 1 ELSE Dim(l[i])]
ShR == [i \in 1..Len(r) |-> Dim(r[i])]
Init == /\ done = FALSE
        /\ l \in Words /\ r \in Words
        /\ res \in SUBSET (Range1(l) \cup Range1(r))
        /\ bc \in {0} \cup Range1(l)
Next == ~done /\ done' = TRUE /\ UNCHANGED <<l, r, res, bc>>
Spec == Init /\ [][Next]_vars
Fill(seed, sh) == [k \in 1..ProdSeq(sh) |-> ((seed * 7919 + k * 104729 + k * k * 31) % 1009)]
T(w, sh, s) == [labels |-> w, shape |-> sh, data |-> Fill(s, sh)]
(* tensordot by itself: sum over the paired axes of equal size, other axes independent *)
Tensordot ==
  LET common == Range1(l) \cap Range1(r)
      (* every axis of each operand becomes a label of its own, except that common labels are paired *)
      ll == [i \in 1..Len(l) |-> IF l[i] \in common /\ At(l, l[i]) = i THEN l[i] ELSE 100 + i]
      rr == [i \in 1..Len(r) |-> IF r[i] \in common /\ At(r, r[i]) = i THEN r[i] ELSE 200 + i]
      out == SelectSeq(ll, LAMBDA x : x >= 100) \o SelectSeq(rr, LAMBDA x : x >= 100)
  IN Contract("mod", <<T(ll, ShL, 1), T(rr, ShR, 2)>>, out)
Sound ==
  done /\ Eligible(l, r, res, ShL, ShR) =>
    LET S == Summed(l, r, res) o == TdotLabels(l, r, S)
        t == Tensordot e == Contract("mod", <<T(l, ShL, 1), T(r, ShR, 2)>>, o)
    IN t.shape = e.shape /\ t.data = e.data /\ Range1(o) = res
(* nothing that tensordot could do is left out: the rank of the result would be wrong, or sizes differ *)
Complete ==
  done /\ ~Eligible(l, r, res, ShL, ShR) =>
    \/ ~NoRepeat(l) \/ ~NoRepeat(r)
    \/ Len(TdotLabels(l, r, Range1(l) \cap Range1(r))) # Cardinality(res)
    \/ Range1(TdotLabels(l, r, Range1(l) \cap Range1(r))) # res
    \/ \E x \in Range1(l) \cap Range1(r) : ShL[At(l, x)] # ShR[At(r, x)]
EmitAll == (Emit /\ ~done) => PrintT(<<"OUT", ToJson([l |-> l, r |-> r, res |-> SetToSeq(res), lsh |-> ShL, rsh |-> ShR])>>)
=============================================================================
