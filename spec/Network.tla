------------------------------ MODULE Network ------------------------------
(***************************************************************************)
(* A contraction seen by a path finder: `terms' is a sequence of operands,  *)
(* each a sequence of labels (positive integers); `out' the output labels;  *)
(* `sizes' the size of label x at position x.  Operands that arise during a *)
(* contraction are identified by the set of original operands they cover.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, BigNat

Rng(s) == { s[i] : i \in 1..Len(s) }
N(k) == Len(k.terms)
TermSet(k, i) == Rng(k.terms[i])
AllLabels(k) == UNION { TermSet(k, i) : i \in 1..N(k) }

(* labels of the operand that covers the set S of original operands, while  *)
(* the others are still uncontracted: those needed outside S                *)
Held(k, S) == UNION { TermSet(k, i) : i \in S }
Legs(k, S) == IF Cardinality(S) = 1 THEN Held(k, S)
              ELSE Held(k, S) \cap (Rng(k.out) \cup Held(k, (1..N(k)) \ S))
(* the same after labels of a single operand have been summed on their own  *)
LegsReduced(k, S) == Held(k, S) \cap (Rng(k.out) \cup Held(k, (1..N(k)) \ S))

BSize(k, L) == BProdSet(L, k.sizes)

(***************************************************************************)
(* Paths.  The linear form names positions (from 0) of the current list,    *)
(* which are removed and replaced by one new operand at the end.            *)
(***************************************************************************)
ValidPositions(n, pos) == /\ pos # <<>>
                          /\ \A i \in 1..Len(pos) : pos[i] >= 0 /\ pos[i] < n
                          /\ \A i, j \in 1..Len(pos) : i # j => pos[i] # pos[j]
DropAt(list, pos) == LET keep == SelectSeq([i \in 1..Len(list) |-> i], LAMBDA i : (i - 1) \notin Rng(pos))
                     IN [i \in 1..Len(keep) |-> list[keep[i]]]
Merged(live, pos) == UNION { live[pos[i] + 1] : i \in 1..Len(pos) }
StepLive(live, pos) == Append(DropAt(live, pos), Merged(live, pos))
LiveInit(k) == [i \in 1..N(k) |-> {i}]

(* what each step of a path merges: sequence of [parts, whole] *)
RECURSIVE MergesFrom(_, _)
MergesFrom(live, path) ==
  IF path = <<>> THEN <<>>
  ELSE <<[parts |-> [i \in 1..Len(Head(path)) |-> live[Head(path)[i] + 1]], whole |-> Merged(live, Head(path))]>>
       \o MergesFrom(StepLive(live, Head(path)), Tail(path))
Merges(k, path) == MergesFrom(LiveInit(k), path)

RECURSIVE WellFormedFrom(_, _)
WellFormedFrom(n, path) ==
  IF path = <<>> THEN (IF n = 1 THEN "ok" ELSE "operands-left-over")
  ELSE IF ~ValidPositions(n, Head(path)) THEN "step-names-bad-positions"
  ELSE WellFormedFrom(n - Len(Head(path)) + 1, Tail(path))
WellFormed(k, path) == WellFormedFrom(N(k), path)

(* total of a function of the steps *)
RECURSIVE BSumSeq(_)
BSumSeq(s) == IF s = <<>> THEN <<>> ELSE BAdd(Head(s), BSumSeq(Tail(s)))

(***************************************************************************)
(* The cost measures.  A and B are the label sets of the two operands of a  *)
(* contraction, R the labels of its result.                                 *)
(***************************************************************************)
PairFlops(k, A, B, R) == LET f == BSize(k, A \cup B) IN IF (A \cap B) \subseteq R THEN f ELSE BAdd(f, f)

(* connected parts: operands linked by labels that are summed               *)
RECURSIVE Grow(_, _)
Grow(k, S) == LET L == Held(k, S) \ Rng(k.out)
                  T == { i \in 1..N(k) : i \in S \/ TermSet(k, i) \cap L # {} }
              IN IF T = S THEN S ELSE Grow(k, T)
Parts(k) == { Grow(k, {i}) : i \in 1..N(k) }
=============================================================================
