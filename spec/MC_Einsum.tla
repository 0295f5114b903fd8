------------------------------ MODULE MC_Einsum ------------------------------
EXTENDS Einsum, TLC
CONSTANTS MaxT, MaxL, MaxRank
VARIABLES inst, done
vars == <<inst, done>>

Words(L) == UNION { [1..k -> 1..L] : k \in 0..MaxRank }
(* deterministic pseudo-random contents, so that coincidences are unlikely *)
Fill(seed, shape) == [k \in 1..ProdSeq(shape) |-> ((seed * 7919 + k * 104729 + k * k * 31) % 1009)]
Dim(x, v) == CASE v = 1 -> IF x % 2 = 1 THEN 2 ELSE 3 [] v = 2 -> 2
Mk(w, i, v) == [labels |-> w, shape |-> [j \in 1..Len(w) |-> Dim(w[j], v)],
                data |-> Fill(i, [j \in 1..Len(w) |-> Dim(w[j], v)])]
Init == /\ done = FALSE
        /\ \E n \in 2..MaxT : \E ws \in [1..n -> Words(MaxL)] :
             inst = [ts |-> [i \in 1..n |-> Mk(ws[i], i, 1)]]
Outs(ts) == { SetToSeq(S) : S \in SUBSET LabelsOf(ts) }
Agree(ts) == \A o \in Outs(ts) : Contract("mod", ts, o) = Eliminate("mod", ts, o)
(* pairwise contraction of the first two operands, keeping what is needed *)
Pairwise(ts, o) == LET rest == SubSeq(ts, 3, Len(ts))
                       keep == (LabelsOf(rest) \cup Range1(o)) \cap LabelsOf(SubSeq(ts, 1, 2))
                   IN Contract("mod", Append(rest, Contract("mod", SubSeq(ts, 1, 2), SetToSeq(keep))), o)
PathFree(ts) == \A o \in Outs(ts) : Contract("mod", ts, o) = Pairwise(ts, o)
Next == ~done /\ done' = TRUE /\ UNCHANGED inst
Spec == Init /\ [][Next]_vars
EliminationIsSound == done => Agree(inst.ts)
OrderDoesNotMatter == done => PathFree(inst.ts)
==============================================================================
