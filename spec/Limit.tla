------------------------------- MODULE Limit -------------------------------
(***************************************************************************)
(* Memory limits.  A limited path merges operands whose result fits; where *)
(* some pair does not fit, one contraction of all that is left may end it. *)
(***************************************************************************)
EXTENDS Search
(* exhaustive search with a limit: merges that fit, ended, where some pair  *)
(* does not fit, by one contraction of all that is left                     *)
Over(k, B) == LET I == UNION { Legs(k, S) : S \in B }
                  m == IF Cardinality(B) - 1 > 1 THEN Cardinality(B) - 1 ELSE 1
              IN BSmall(BSize(k, I), IF I \subseteq Rng(k.out) THEN m ELSE m + 1)
RECURSIVE Partitions(_)
Partitions(S) == IF S = {} THEN {{}}
                 ELSE LET a == CHOOSE a \in S : TRUE IN
                      UNION { { {A \cup {a}} \cup p : p \in Partitions(S \ (A \cup {a})) } : A \in SUBSET (S \ {a}) }
RECURSIVE SumTab(_, _)
SumTab(tab, B) == IF B = {} THEN <<>> ELSE LET S == CHOOSE S \in B : TRUE IN BAdd(tab[S].v, SumTab(tab, B \ {S}))
Ends(k, tab) == { B \in Partitions(1..N(k)) : /\ Cardinality(B) > 1 /\ \A S \in B : tab[S].ok
                                         /\ \E S, T \in B : S # T /\ ~Fits(k, S \cup T) }
LimCosts(k, tab) == (IF tab[1..N(k)].ok THEN {tab[1..N(k)].v} ELSE {}) \cup { BAdd(SumTab(tab, B), Over(k, B)) : B \in Ends(k, tab) }
LimMin(k, tab) == LET C == LimCosts(k, tab) IN CHOOSE x \in C : \A y \in C : BLe(x, y)
(* S is made of complete disconnected parts: merging such operands is the   *)
(* product of finished results                                              *)
OfParts(k, S) == \A i \in S : Grow(k, {i}) \subseteq S
(* may the positions pos of the list lv be merged as step number j of m? (fresh: by one search, not a leftover) *)
JudgeStep(k, lv, pos, last, fresh) ==
  LET parts == { lv[pos[i] + 1] : i \in 1..Len(pos) }
      whole == UNION parts
  IN IF ~ValidPositions(Len(lv), pos) THEN "path-malformed"
     ELSE IF ~last /\ Len(pos) > 2 THEN "early-combined-step"
     ELSE IF ~last /\ Len(pos) = 2 /\ ~Fits(k, whole) THEN
          (IF \A S \in parts : OfParts(k, S) THEN "limit-exceeded-by-product-of-parts" ELSE "limit-exceeded")
     ELSE IF last /\ fresh /\ Len(pos) > 2 /\ \A S, T \in parts : S = T \/ Fits(k, S \cup T) THEN "needless-combined-step"
     ELSE "ok"
=============================================================================
