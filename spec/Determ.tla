------------------------------- MODULE Determ -------------------------------
(***************************************************************************)
(* A deterministic path finder is a function of the contraction alone: of  *)
(* its index structure (label names, the order in which they are stored,   *)
(* and everything that happened before do not matter), the sizes, the      *)
(* limit and its own options.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Elts(s) == { s[i] : i \in 1..Len(s) }
(* b is a consistent renaming of a: the labels at corresponding places      *)
(* correspond one to one, with the same sizes and the same output           *)
Flat(terms) == FlattenSeq(terms)
SameStructure(a, b) ==
  LET w == Flat(a.terms)
      u == Flat(b.terms)
      f == [x \in Elts(w) |-> u[CHOOSE i \in 1..Len(w) : w[i] = x]]
  IN /\ Len(a.terms) = Len(b.terms)
     /\ \A i \in 1..Len(a.terms) : Len(a.terms[i]) = Len(b.terms[i])
     /\ \A i \in 1..Len(w) : f[w[i]] = u[i]
     /\ Cardinality(Elts(u)) = Cardinality(Elts(w))
     /\ { f[x] : x \in Elts(a.out) } = Elts(b.out)
     /\ \A x \in Elts(w) : a.sizes[x] = b.sizes[f[x]]
=============================================================================
