------------------------------ MODULE MC_Limit ------------------------------
(* Every limited order of merges of every small network: the rules by which *)
(* paths of the code are judged accept all of them, and the table of Search *)
(* with the ways to end (LimMin) is the minimum of their costs.             *)
EXTENDS Limit, TLC
CONSTANTS NT, NL, Lims
VARIABLES k, live, cost, tab, n, bad, done
vars == <<k, live, cost, tab, n, bad, done>>
SortedSeq(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Code(S) == (IF 1 \in S THEN 1 ELSE 0) + (IF 2 \in S THEN 2 ELSE 0) + (IF 3 \in S THEN 4 ELSE 0)
Init == \E t \in [1..NT -> SUBSET (1..NL)], o \in SUBSET (1..NL), m \in Lims :
          /\ \A j \in 1..(NT - 1) : Code(t[j]) <= Code(t[j + 1])
          /\ o \subseteq UNION { t[j] : j \in 1..NT }
          /\ k = [terms |-> [j \in 1..NT |-> SortedSeq(t[j])], out |-> SortedSeq(o), sizes |-> <<2, 3, 5>>, obj |-> "pair", alpha |-> 0, outer |-> TRUE, haslim |-> TRUE, lim |-> BFrom(m)]
          /\ live = [j \in 1..NT |-> {j}] /\ cost = <<>> /\ tab = <<>> /\ n = 0 /\ bad = "ok" /\ done = FALSE
Build == n < Depth(k) /\ n' = n + 1 /\ tab' = Level(k, tab, n + 1) /\ UNCHANGED <<k, live, cost, bad, done>>
Ready == n = Depth(k)
Pairs == { p \in (1..Len(live)) \X (1..Len(live)) : p[1] < p[2] }
Free(p) == Fits(k, live[p[1]] \cup live[p[2]])
Take(pos, c) == /\ live' = StepLive(live, pos) /\ cost' = BAdd(cost, c)
                /\ bad' = IF bad = "ok" THEN JudgeStep(k, live, pos, Len(live) = Len(pos), TRUE) ELSE bad
                /\ done' = (Len(live) = Len(pos)) /\ UNCHANGED <<k, tab, n>>
Merge == Ready /\ ~done /\ \E p \in Pairs : Free(p) /\ Take(<<p[1] - 1, p[2] - 1>>, StepCost(k, live[p[1]], live[p[2]]))
All == Ready /\ ~done /\ (\E p \in Pairs : ~Free(p)) /\ Take([i \in 1..Len(live) |-> i - 1], Over(k, Rng(live)))
Next == Build \/ Merge \/ All
Spec == Init /\ [][Next]_vars

(* brute force from a set of blocks *)
RECURSIVE Best(_)
Best(B) ==
  IF Cardinality(B) = 1 THEN <<>>
  ELSE LET P == kSubset(2, B)
           F == { p \in P : Fits(k, UNION p) }
           C == { BAdd(StepCost(k, A, UNION (p \ {A})), Best((B \ p) \cup {UNION p})) : <<p, A>> \in { <<p, CHOOSE A \in p : TRUE>> : p \in F } }
                \cup (IF F # P THEN {Over(k, B)} ELSE {})
       IN CHOOSE x \in C : \A y \in C : BLe(x, y)
Accepted == bad = "ok"
Minimal == done => BLe(LimMin(k, tab), cost)
Exact == (Ready /\ Len(live) = NT) => LimMin(k, tab) = Best(Rng(live))
(* a search that merges whenever something fits never combines more than two operands of which all pairs fit *)
NeverStuck == Ready => (done \/ ENABLED Next)
=============================================================================
