------------------------------- MODULE T_Hist -------------------------------
(* Histories of calls of real optimizer objects on real contractions: the    *)
(* reported scores against the costs of the path machine.  Numbers are       *)
(* BigNat.                                                                   *)
EXTENDS Network, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, verdict
vars == <<c, l, verdict>>
K == Cases[c]
BMaxS(s) == LET V == Rng(s) \cup {<<>>} IN CHOOSE x \in V : \A y \in V : BLe(y, x)
PathCost(k, p) == LET ms == Merges(k, p) IN
  BSumSeq([i \in 1..Len(ms) |-> PairFlops(k, Legs(k, ms[i].parts[1]), Legs(k, ms[i].parts[2]), Legs(k, ms[i].whole))])
(* with a limit, a path may end in one contraction of all that is left *)
OverFlops(k, m) == LET I == UNION { Legs(k, m.parts[i]) : i \in 1..Len(m.parts) }
                       n == IF Len(m.parts) > 2 THEN Len(m.parts) - 1 ELSE 1
                   IN BSmall(BSize(k, I), IF I \subseteq Rng(k.out) THEN n ELSE n + 1)
LimitCost(k, p) == LET ms == Merges(k, p) IN
  BSumSeq([i \in 1..Len(ms) |-> IF i = Len(ms) THEN OverFlops(k, ms[i])
                                 ELSE PairFlops(k, Legs(k, ms[i].parts[1]), Legs(k, ms[i].parts[2]), Legs(k, ms[i].whole))])
CostOk(k, e) == IF k.limited /\ Len(e.path[Len(e.path)]) > 2 THEN e.bf = LimitCost(k, e.path)
                ELSE e.bf = PathCost(k, e.path) \/ (k.limited /\ e.bf = LimitCost(k, e.path))
PathSize(k, p) == LET ms == Merges(k, p) IN BMaxS([i \in 1..Len(ms) |-> BSize(k, Legs(k, ms[i].whole))])
Lt2(a, b) == BLt(a[1], b[1]) \/ (a[1] = b[1] /\ BLt(a[2], b[2]))
Sc(k, f, s) == IF k.min = "flops" THEN <<f, s>> ELSE <<s, f>>

Judge(k, j) ==
  LET e == k.calls[j]
      p == IF j = 1 THEN e ELSE k.calls[j - 1]
  IN IF e.foreign THEN
        (IF e.e # "ValueError" THEN "other-contraction-not-refused"
         ELSE IF <<e.costs, e.sizes, e.bf, e.bs, e.path>> # <<p.costs, p.sizes, p.bf, p.bs, p.path>> THEN "refused-call-changed-state" ELSE "ok")
     ELSE IF e.e # "" THEN "raised-" \o e.e
     ELSE IF WellFormed(k, e.path) # "ok" \/ \E i \in 1..Len(e.path) : Len(e.path[i]) # 2 /\ ~(k.limited /\ i = Len(e.path)) THEN "path-malformed"
     ELSE IF e.ret # e.path THEN "returned-path-is-not-the-best"
     ELSE IF ~CostOk(k, e) THEN "best-cost-is-not-the-paths"
     ELSE IF PathSize(k, e.path) # e.bs THEN "best-size-is-not-the-paths"
     ELSE IF j > 1 /\ Lt2(Sc(k, p.bf, p.bs), Sc(k, e.bf, e.bs)) THEN "best-got-worse"
     ELSE IF ~k.random THEN "ok"
     ELSE IF Len(e.costs) # Len(e.sizes) \/ Len(e.costs) # (IF j = 1 THEN 0 ELSE Len(p.costs)) + e.rep THEN "history-length"
     ELSE IF j > 1 /\ (SubSeq(e.costs, 1, Len(p.costs)) # p.costs \/ SubSeq(e.sizes, 1, Len(p.sizes)) # p.sizes) THEN "history-rewritten"
     ELSE IF \E i \in 1..Len(e.costs) : Lt2(Sc(k, e.costs[i], e.sizes[i]), Sc(k, e.bf, e.bs)) THEN "better-trial-forgotten"
     ELSE IF \A i \in 1..Len(e.costs) : <<e.costs[i], e.sizes[i]>> # <<e.bf, e.bs>> THEN "best-not-in-history"
     ELSE IF k.hasref /\ e.costs[1] # PathCost(k, k.ref) THEN "first-trial-is-not-greedy"
     ELSE "ok"
Init == c \in 1..Len(Cases) /\ l = 0 /\ verdict = "?"
Step == verdict = "?" /\ l < Len(K.calls) /\ UNCHANGED c
        /\ LET v == Judge(K, l + 1) IN IF v = "ok" THEN l' = l + 1 /\ UNCHANGED verdict ELSE verdict' = v /\ UNCHANGED l
Finish == verdict = "?" /\ l = Len(K.calls) /\ verdict' = "ok" /\ UNCHANGED <<c, l>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Report == verdict \in {"?", "ok"} \/ PrintT(<<"VERDICT", c, verdict>>)
=============================================================================
