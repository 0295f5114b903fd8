------------------------------- MODULE T_Path -------------------------------
(* Replays paths returned by the real path finders on the path machine.     *)
EXTENDS Network, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, live, verdict
vars == <<c, l, live, verdict>>
K == Cases[c]
Covered == UNION { live[i] : i \in 1..Len(live) }

Init == /\ c \in 1..Len(Cases) /\ l = 0
        /\ live = [i \in 1..K.n |-> {i}]
        /\ verdict = IF K.k = "path" THEN "run" ELSE "stop"
(* the finder gave no path: only allowed where the property allows an error *)
NoPath == verdict = "stop" /\ UNCHANGED <<c, l, live>>
          /\ verdict' = IF K.k = "error" /\ K.mayfail THEN "ok" ELSE IF K.k = "error" THEN "raised-" \o K.e ELSE "not-a-path"
Step == /\ verdict = "run" /\ l < Len(K.path)
        /\ LET pos == K.path[l + 1] IN
           IF ~ValidPositions(Len(live), pos) THEN verdict' = "step-names-bad-positions" /\ UNCHANGED <<c, l, live>>
           ELSE IF K.pairwise /\ Len(pos) > 2 THEN verdict' = "more-than-two-operands" /\ UNCHANGED <<c, l, live>>
           ELSE live' = StepLive(live, pos) /\ l' = l + 1 /\ UNCHANGED <<c, verdict>>
Finish == /\ verdict = "run" /\ l = Len(K.path)
          /\ verdict' = IF Len(live) # 1 THEN "operands-left-over" ELSE "ok"
          /\ UNCHANGED <<c, l, live>>
Next == NoPath \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
(* the machine never loses or duplicates an operand *)
Partition == /\ Covered = 1..K.n
             /\ \A i, j \in 1..Len(live) : i # j => live[i] \cap live[j] = {}
Report == verdict \in {"run", "stop", "ok"} \/ PrintT(<<"VERDICT", c, verdict>>)
=============================================================================
