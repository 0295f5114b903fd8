------------------------------ MODULE T_Greedy ------------------------------
(* Replays paths found by the greedy optimizer against the rules of Greedy. *)
(* K.args: arguments the cost function was called with.                     *)
EXTENDS Greedy, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, s, verdict
vars == <<c, l, s, verdict>>
K == Cases[c]
O == Never(K.terms, K.out)
ArgsOk(a) == /\ a.s12 = SizeOf(K.sizes, Lbl(a.k12)) /\ a.s1 = SizeOf(K.sizes, Lbl(a.k1)) /\ a.s2 = SizeOf(K.sizes, Lbl(a.k2))
             /\ Lbl(a.k12) \subseteq Lbl(a.k1) \cup Lbl(a.k2)
             /\ (Lbl(a.k1) \cap Lbl(a.k2)) \ O # {}
Init == /\ c \in 1..Len(Cases) /\ l = 0 /\ s = StartState(K.terms)
        /\ verdict = IF K.e # "" THEN "raised-" \o K.e
                     ELSE IF \E i \in 1..Len(K.args) : ~ArgsOk(K.args[i]) THEN "cost-function-given-wrong-sizes" ELSE "run"
Step == /\ verdict = "run" /\ l < Len(K.path) /\ UNCHANGED c
        /\ LET p == K.path[l + 1] n == Len(s.live) IN
           IF Len(p) # 2 \/ p[1] = p[2] \/ p[1] < 0 \/ p[2] < 0 \/ p[1] >= n \/ p[2] >= n THEN verdict' = "bad-step" /\ UNCHANGED <<l, s>>
           ELSE LET v == IF s.phase = "blur" THEN "ok" ELSE Verdict(K.f, K.sizes, O, s, p[1] + 1, p[2] + 1) IN
                /\ l' = l + 1
                /\ verdict' = IF v = "ok" THEN "run" ELSE v
                /\ s' = IF s.phase = "blur" THEN [s EXCEPT !.live = Append(Drop2(s.live, p[1] + 1, p[2] + 1), {})]
                        ELSE IF v # "ok" THEN s ELSE After(K.f, K.sizes, O, s, p[1] + 1, p[2] + 1)
Finish == verdict = "run" /\ l = Len(K.path) /\ UNCHANGED <<c, l, s>> /\ verdict' = IF Len(s.live) = 1 THEN "ok" ELSE "operands-left-over"
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Report == verdict \in {"run", "ok"} \/ PrintT(<<"VERDICT", c, verdict, l>>)
=============================================================================
