----------------------------- MODULE MC_Search -----------------------------
(* Every order of merges of every small network: no complete order is       *)
(* cheaper than the table of Search says, and some order reaches it.        *)
EXTENDS Search, TLC
CONSTANTS NT, NL, Objs, Lims, Szs
SizesOf(i) == IF i = 1 THEN <<2, 3, 5>> ELSE <<3, 3, 2>>
VARIABLES k, blocks, cost, tab, n
vars == <<k, blocks, cost, tab, n>>

SortedSeq(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Code(S) == (IF 1 \in S THEN 1 ELSE 0) + (IF 2 \in S THEN 2 ELSE 0) + (IF 3 \in S THEN 4 ELSE 0)
Init == \E t \in [1..NT -> SUBSET (1..NL)], o \in SUBSET (1..NL), i \in Szs, ob \in Objs, u \in BOOLEAN, m \in Lims :
          /\ \A j \in 1..(NT - 1) : Code(t[j]) <= Code(t[j + 1])        \* operands up to permutation
          /\ o \subseteq UNION { t[j] : j \in 1..NT }
          /\ ob = "pair" => u
          /\ k = [terms |-> [j \in 1..NT |-> SortedSeq(t[j])], out |-> SortedSeq(o), sizes |-> SizesOf(i), obj |-> ob, alpha |-> 2, outer |-> u, haslim |-> m > 0, lim |-> BFrom(m)]
          /\ blocks = { {j} : j \in 1..NT } /\ cost = <<>> /\ tab = <<>> /\ n = 0
Build == n < Depth(k) /\ n' = n + 1 /\ tab' = Level(k, tab, n + 1) /\ UNCHANGED <<k, blocks, cost>>
(* merges inside the parts, any order *)
InPart(S) == \E P \in Problems(k) : S \subseteq P
Merge == /\ n = Depth(k)
         /\ \E A, B \in blocks : /\ A # B /\ InPart(A \cup B) /\ Joined(k, A, B) /\ Fits(k, A \cup B)
              /\ blocks' = (blocks \ {A, B}) \cup {A \cup B}
              /\ cost' = Comb(k, cost, StepCost(k, A, B))
         /\ UNCHANGED <<k, tab, n>>
Next == Build \/ Merge
Spec == Init /\ [][Next]_vars
Complete == n = Depth(k) /\ \A P \in Problems(k) : P \in blocks
RECURSIVE Total(_)
Total(S) == IF S = {} THEN <<>> ELSE LET P == CHOOSE P \in S : TRUE IN Comb(k, tab[P].v, Total(S \ {P}))
Ready == n = Depth(k)
(* a complete order never beats the table, and exists only if the table says so *)
Minimal == Complete => Feasible(k, tab) /\ BLe(Total(Problems(k)), cost)
(* from every state in which nothing was merged, following optimal splits reaches the table's value: witnessed by *)
(* the existence of a first merge that keeps the optimum, checked level by level                                   *)
Reached == Ready => \A S \in DOMAIN tab : (tab[S].ok /\ Cardinality(S) > 1) =>
             \E A \in Splits(S) : tab[A].ok /\ tab[S \ A].ok /\ Joined(k, A, S \ A) /\ Fits(k, S)
                 /\ tab[S].v = TreeCost(k, tab[A].v, tab[S \ A].v, A, S \ A)
(* the labels of a merged operand are those of its parts that are still needed: bookkeeping of covers is exact *)
LegsOk == \A S \in blocks : Cardinality(S) > 1 => L(k, S) = Held(k, S) \cap (Rng(k.out) \cup UNION { L(k, T) : T \in blocks \ {S} })
=============================================================================
