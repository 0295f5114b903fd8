------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* Optimal contraction trees.  The labels of an intermediate depend only on *)
(* the set of operands it covers, so the best tree for a set S is the best  *)
(* split of S into two sets whose best trees are known.  MC_Search checks,  *)
(* by exploring every order of merges, that this table holds the minimum    *)
(* over all sequences of pairwise contractions.                             *)
(*                                                                          *)
(* A problem k has, beside terms/out/sizes:                                 *)
(*   obj     "pair"  FLOPs of the exhaustive search (doubled when a common  *)
(*                   label is summed; lone labels are kept until merged)    *)
(*           "flops" "size" "write" "combo" "limit"  objectives of dynamic  *)
(*                   programming (lone labels are summed beforehand)        *)
(*   alpha   weight of the written size for combo and limit                 *)
(*   outer   TRUE if operands without a common summed label may be merged   *)
(*   haslim, lim   bound on the size of every merged operand                *)
(***************************************************************************)
EXTENDS Network, FiniteSetsExt

None == [ok |-> FALSE, v |-> <<>>]
Some(b) == [ok |-> TRUE, v |-> b]

L(k, S) == IF k.obj = "pair" THEN Legs(k, S) ELSE LegsReduced(k, S)
Fits(k, S) == ~k.haslim \/ BLe(BSize(k, L(k, S)), k.lim)
Joined(k, A, B) == k.outer \/ (L(k, A) \cap L(k, B)) \ Rng(k.out) # {}

(* contribution of one merge, and its combination with those of the parts   *)
StepCost(k, A, B) ==
  LET S == A \cup B
      f == BSize(k, L(k, A) \cup L(k, B))
      m == BSize(k, L(k, S))
  IN CASE k.obj = "pair"  -> PairFlops(k, L(k, A), L(k, B), L(k, S))
       [] k.obj = "flops" -> f
       [] k.obj = "size"  -> m
       [] k.obj = "write" -> m
       [] k.obj = "combo" -> BAdd(f, BSmall(m, k.alpha))
       [] k.obj = "limit" -> BMax(f, BSmall(m, k.alpha))
Comb(k, a, b) == IF k.obj = "size" THEN BMax(a, b) ELSE BAdd(a, b)
TreeCost(k, ca, cb, A, B) == Comb(k, Comb(k, ca, cb), StepCost(k, A, B))

(* operands that are reduced to a number on their own take no part in the   *)
(* dynamic programming                                                      *)
Done(k, i) == TermSet(k, i) # {} /\ LegsReduced(k, {i}) = {}
Problems(k) ==
  IF k.obj = "pair" THEN {1..N(k)}
  ELSE IF k.outer THEN LET U == { i \in 1..N(k) : ~Done(k, i) } IN IF U = {} THEN {} ELSE {U}
  ELSE { P \in Parts(k) : \A i \in P : ~Done(k, i) }

Splits(S) == LET a == CHOOSE a \in S : TRUE IN { A \in SUBSET S : a \in A /\ A # S }
BestOf(k, tab, S) ==
  IF Cardinality(S) = 1 THEN Some(<<>>)
  ELSE IF ~Fits(k, S) THEN None
  ELSE LET V == { A \in Splits(S) : tab[A].ok /\ tab[S \ A].ok /\ Joined(k, A, S \ A) }
           C == { TreeCost(k, tab[A].v, tab[S \ A].v, A, S \ A) : A \in V }
       IN IF C = {} THEN None ELSE Some(CHOOSE x \in C : \A y \in C : BLe(x, y))

(* the table, one size of sets after the other *)
Level(k, tab, n) == LET D == UNION { kSubset(n, P) : P \in { P \in Problems(k) : Cardinality(P) >= n } }
                    IN tab @@ [S \in D |-> BestOf(k, tab, S)]
Depth(k) == IF Problems(k) = {} THEN 0 ELSE Max({ Cardinality(P) : P \in Problems(k) })
(* exists a tree for every part? *)
Feasible(k, tab) == \A P \in Problems(k) : tab[P].ok
=============================================================================
