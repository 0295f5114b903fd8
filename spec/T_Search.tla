------------------------------ MODULE T_Search ------------------------------
(* Judges paths returned by the exhaustive and the dynamic-programming      *)
(* searches against the minimum over all trees.                             *)
EXTENDS Limit, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, n, tab, verdict
vars == <<c, n, tab, verdict>>
K == Cases[c]

RECURSIVE SumCost(_, _, _)
(* objective of the merges of a path that lie inside P *)
SumCost(k, ms, P) ==
  IF ms = <<>> THEN <<>>
  ELSE LET m == Head(ms)
           r == SumCost(k, Tail(ms), P)
       IN IF Len(m.parts) = 2 /\ m.whole \subseteq P THEN Comb(k, StepCost(k, m.parts[1], m.parts[2]), r) ELSE r

(* exhaustive search without limit *)
JudgePair(k) ==
  LET ms == Merges(k, k.path) IN
  IF \E i \in 1..Len(ms) : Len(ms[i].parts) # 2 THEN "not-pairwise"
  ELSE IF SumCost(k, ms, 1..N(k)) # tab[1..N(k)].v THEN "not-minimal"
  ELSE "ok"

RECURSIVE LimPathCost(_, _, _)
LimPathCost(k, ms, live) ==
  IF ms = <<>> THEN <<>>
  ELSE LET m == Head(ms)
           last == Len(ms) = 1
           P == Rng(m.parts)
       IN IF last /\ (Len(m.parts) > 2 \/ ~Fits(k, m.whole)) THEN Over(k, P)
          ELSE BAdd(StepCost(k, m.parts[1], m.parts[2]), LimPathCost(k, Tail(ms), live))
JudgeLimit(k) ==
  LET ms == Merges(k, k.path) IN
  IF \E i \in 1..(Len(ms) - 1) : Len(ms[i].parts) # 2 \/ ~Fits(k, ms[i].whole) THEN "limit-exceeded"
  ELSE IF LimPathCost(k, ms, <<>>) # LimMin(k, tab) THEN "not-minimal-within-limit" ELSE "ok"

(* dynamic programming *)
Whole(k, S) == \A P \in Problems(k) : S \cap P = {} \/ P \subseteq S
JudgeDP(k) ==
  LET ms == Merges(k, k.path)
      Red(i) == \E j \in 1..Len(ms) : ms[j].parts = <<{i}>>
      PosOf(i, lens) == CHOOSE j \in 1..Len(ms) : Len(ms[j].parts) \in lens /\ i \in ms[j].whole
                              /\ \A h \in 1..(j - 1) : ~(Len(ms[h].parts) \in lens /\ i \in ms[h].whole)
  IN IF ~Feasible(k, tab) THEN "path-though-limit-cannot-be-met"
     ELSE IF \E j \in 1..Len(ms) : Len(ms[j].parts) > 2 THEN "not-pairwise"
     ELSE IF \E j \in 1..Len(ms) : Len(ms[j].parts) = 1 /\ (Cardinality(ms[j].whole) # 1 \/ \E h \in 1..(j - 1) : ms[h].parts = ms[j].parts) THEN "needless-step"
     ELSE IF \E i \in 1..N(k) : Red(i) # (LegsReduced(k, {i}) # TermSet(k, i)) THEN "lone-labels-not-summed-first"
     ELSE IF \E i \in 1..N(k) : Red(i) /\ N(k) > 1 /\ PosOf(i, {1}) > PosOf(i, {2}) THEN "lone-labels-not-summed-first"
     ELSE IF \E j \in 1..Len(ms) : Len(ms[j].parts) = 2 /\
               ~( \/ \E P \in Problems(k) : ms[j].whole \subseteq P /\ Joined(k, ms[j].parts[1], ms[j].parts[2]) /\ Fits(k, ms[j].whole)
                  \/ Whole(k, ms[j].parts[1]) /\ Whole(k, ms[j].parts[2]) ) THEN "merge-not-allowed"
     ELSE IF \E P \in Problems(k) : SumCost(k, ms, P) # tab[P].v THEN "not-minimal"
     ELSE "ok"

Judge(k) ==
  IF k.e # "" THEN (IF k.obj # "pair" /\ k.haslim /\ k.e = "RuntimeError" /\ ~Feasible(k, tab) THEN "ok" ELSE "raised-" \o k.e)
  ELSE IF WellFormed(k, k.path) # "ok" THEN "path-malformed"
  ELSE IF k.obj = "pair" THEN (IF k.haslim THEN JudgeLimit(k) ELSE JudgePair(k))
  ELSE JudgeDP(k)

Init == c \in 1..Len(Cases) /\ n = 0 /\ tab = <<>> /\ verdict = "?"
Build == verdict = "?" /\ n < Depth(K) /\ n' = n + 1 /\ tab' = Level(K, tab, n + 1) /\ UNCHANGED <<c, verdict>>
Decide == verdict = "?" /\ n = Depth(K) /\ verdict' = Judge(K) /\ tab' = <<>> /\ UNCHANGED <<c, n>>
Next == Build \/ Decide
Spec == Init /\ [][Next]_vars
Report == verdict \in {"?", "ok"} \/ PrintT(<<"VERDICT", c, verdict>>)
=============================================================================
