----------------------------- MODULE MC_Determ -----------------------------
(* Two contractions have the same structure exactly if one is a consistent *)
(* renaming of the other (all small contractions, all renamings).          *)
EXTENDS Determ, TLC
CONSTANTS NTerms, MaxRank, Labels
VARIABLES k, m, done
vars == <<k, m, done>>
Words == UNION { [1..r -> Labels] : r \in 0..MaxRank }
Nets == { [terms |-> t, out |-> SetToSeq(o), sizes |-> [x \in Labels |-> 2]] : t \in [1..NTerms -> Words], o \in SUBSET Labels }
Good(x) == Elts(x.out) \subseteq Elts(Flat(x.terms))
Init == k \in { x \in Nets : Good(x) } /\ m \in { x \in Nets : Good(x) } /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<k, m>>
Spec == Init /\ [][Next]_vars
Renamed(a, b) ==
  \E f \in Permutations(Labels) :
     /\ \A i \in 1..NTerms : Len(a.terms[i]) = Len(b.terms[i]) /\ \A j \in 1..Len(a.terms[i]) : b.terms[i][j] = f[a.terms[i][j]]
     /\ { f[x] : x \in Elts(a.out) } = Elts(b.out)
Exact == done => (SameStructure(k, m) <=> Renamed(k, m))
=============================================================================
