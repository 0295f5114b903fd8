----------------------------- MODULE Expression -----------------------------
(***************************************************************************)
(* A contraction expression: a fixed program (see Sharing.tla) of which     *)
(* some operands are constants.  Its only state is, per backend, the        *)
(* results of constant operations that have been performed.                 *)
(***************************************************************************)
EXTENDS Sharing

(* the steps that involve constants only *)
RECURSIVE ConstSteps(_, _, _)
ConstSteps(prog, consts, k) ==
  IF k = 0 THEN {}
  ELSE LET R == ConstSteps(prog, consts, k - 1) IN
       IF \A i \in 1..Len(prog[k].refs) : LET r == prog[k].refs[i] IN IF r > 0 THEN r \in consts ELSE (-r) \in R
       THEN R \cup {k} ELSE R
IsConst(prog, consts) == ConstSteps(prog, consts, Len(prog))

(* how many leading steps are folded: everything before the first operation *)
(* on a supplied array, but not the last contraction (its operations are    *)
(* those after `last')                                                      *)
Fold(prog, consts, last) ==
  LET C == IsConst(prog, consts)
      H == { k \in 0..last : \A j \in 1..k : j \in C } IN CHOOSE k \in H : \A j \in H : j <= k

(* done: function from a set of steps to result arrays *)
Has(done, k) == k \in DOMAIN done
Val(leaves, done, r) == IF r > 0 THEN leaves[r] ELSE done[-r]
Ready(prog, done, k) == \A i \in 1..Len(prog[k].refs) : prog[k].refs[i] > 0 \/ Has(done, -prog[k].refs[i])
OpOf(prog, leaves, done, k) ==
  [kind |-> prog[k].kind, spec |-> prog[k].spec,
   args |-> [i \in 1..Len(prog[k].refs) |-> Val(leaves, done, prog[k].refs[i])]]
With(done, k, v) == [j \in DOMAIN done \cup {k} |-> IF j = k THEN v ELSE done[j]]
=============================================================================
