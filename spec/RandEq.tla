------------------------------- MODULE RandEq -------------------------------
(***************************************************************************)
(* Randomly generated contractions.  A request r asks for n operands,      *)
(* `bonds' labels that join two operands each, nout labels that one        *)
(* operand and the output have, and possibly a label (glob) that all       *)
(* operands and the output have.  An answer k has terms and out (sequences *)
(* of labels).                                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Rg(s) == { s[i] : i \in 1..Len(s) }
Holders(k, x) == { i \in 1..Len(k.terms) : x \in Rg(k.terms[i]) }
Used(k) == UNION { Rg(k.terms[i]) : i \in 1..Len(k.terms) }
NoRepeat(s) == Cardinality(Rg(s)) = Len(s)
Verdict(r, k) ==
  LET glob == { x \in Used(k) \cap Rg(k.out) : Cardinality(Holders(k, x)) = r.n /\ r.n > 1 }
      open == { x \in Used(k) : Cardinality(Holders(k, x)) = 1 }
      bond == Used(k) \ Rg(k.out)
  IN IF Len(k.terms) # r.n THEN "wrong-number-of-operands"
     ELSE IF \E i \in 1..r.n : ~NoRepeat(k.terms[i]) THEN "repeated-label-in-operand"
     ELSE IF ~NoRepeat(k.out) \/ ~(Rg(k.out) \subseteq Used(k)) THEN "bad-output"
     ELSE IF \E x \in bond : Cardinality(Holders(k, x)) # 2 THEN "inner-label-not-in-two-operands"
     ELSE IF Cardinality(bond) # r.bonds THEN "wrong-number-of-inner-labels"
     ELSE IF r.glob /\ Cardinality(glob) # 1 THEN "no-global-label"
     ELSE IF \E x \in Rg(k.out) \ (IF r.glob THEN glob ELSE {}) : Cardinality(Holders(k, x)) # 1 THEN "output-label-shared"
     ELSE IF Len(k.out) # r.nout + (IF r.glob THEN 1 ELSE 0) THEN "wrong-number-of-output-labels"
     ELSE IF 2 * r.bonds + r.nout >= r.n /\ \E i \in 1..r.n : k.terms[i] = <<>> THEN "operand-without-labels"
     ELSE "ok"
=============================================================================
