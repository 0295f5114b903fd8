------------------------------ MODULE T_Branch ------------------------------
(* Judges paths of the branch searches.  K.deep: compare with the sequences *)
(* that must not be missed; otherwise (many operands) only the rule for a   *)
(* single branch.  K.cut = 0: no cutoff.                                    *)
EXTENDS Branch, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, n, floor, sure, verdict
vars == <<c, n, floor, sure, verdict>>
K == Cases[c]
NoCut == K.cut = 0

RECURSIVE Score(_)
Score(ms) == IF ms = <<>> THEN [f |-> 0, s |-> 0]
             ELSE LET m == Head(ms) r == Score(Tail(ms)) IN
                  [f |-> IFlops(K, m.parts[1], m.parts[2]) + r.f, s |-> Max2(ISize12(K, m.parts[1], m.parts[2]), r.s)]
Pairwise(ms) == \A i \in 1..Len(ms) : Len(ms[i].parts) = 2

(* a single branch: every step a cheapest pair *)
RECURSIVE SingleFrom(_, _, _)
SingleFrom(ms, B, f) ==
  IF ms = <<>> THEN "ok"
  ELSE LET p == Rng(Head(ms).parts)
           C == Cands(K, B)
           lo == Min({ f + PFlops(K, q) : q \in C })
       IN IF p \notin C THEN "outer-product-while-a-pair-shares-a-label"
          ELSE IF \E q \in C : PCost(K, q) < PCost(K, p) /\ (NoCut \/ f + PFlops(K, q) <= K.cut * lo) THEN "step-not-cheapest"
          ELSE SingleFrom(Tail(ms), After(B, p), f + PFlops(K, p))
Single(ms) == IF K.nb = 1 THEN SingleFrom(ms, Blocks0(K), 0) ELSE "ok"

Judge == LET ms == Merges(K, K.path) IN
         IF ~Pairwise(ms) THEN "not-pairwise"
         ELSE IF Single(ms) # "ok" THEN Single(ms)
         ELSE IF ~K.deep THEN "ok"
         ELSE LET r == Score(ms) IN
              IF \E x \in sure : Better(K, x.f, x.s, r.f, r.s) THEN "better-sequence-missed" ELSE "ok"
Init == /\ c \in 1..Len(Cases)
        /\ n = (IF K.deep THEN 1 ELSE N(K))
        /\ floor = {[B |-> Blocks0(K), f |-> 0]} /\ sure = {[B |-> Blocks0(K), f |-> 0, s |-> 0]}
        /\ verdict = IF K.e # "" THEN "raised-" \o K.e ELSE IF WellFormed(K, K.path) # "ok" THEN "path-malformed" ELSE "?"
(* of positions with the same blocks only the best matter *)
Best(P) == { x \in P : \A y \in P : y.B = x.B => ~(y.f <= x.f /\ y.s <= x.s /\ y # x) }
Level == /\ verdict = "?" /\ n < N(K) /\ n' = n + 1 /\ UNCHANGED <<c, verdict>>
         /\ floor' = IF NoCut THEN {} ELSE MinLevel(K, floor)
         /\ sure' = Best(SureLevel(IF NoCut THEN [K EXCEPT !.cut = 1] ELSE K, sure, IF NoCut THEN 2147483647 ELSE MinFlops(floor')))
Decide == verdict = "?" /\ n = N(K) /\ verdict' = Judge /\ floor' = {} /\ sure' = {} /\ UNCHANGED <<c, n>>
Next == Level \/ Decide
Spec == Init /\ [][Next]_vars
Report == verdict \in {"?", "ok"} \/ PrintT(<<"VERDICT", c, verdict>>)
=============================================================================
