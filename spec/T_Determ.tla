------------------------------ MODULE T_Determ ------------------------------
(* A history of calls of path finders in several processes.  memo holds one  *)
(* call for every contraction (with finder and limit) met so far.          *)
EXTENDS Determ, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, memo, verdict
vars == <<c, l, memo, verdict>>
K == Cases[c]
Same(a, b) == a.finder = b.finder /\ a.limit = b.limit /\ SameStructure(a, b)
Init == c \in 1..Len(Cases) /\ l = 0 /\ memo = {} /\ verdict = "run"
Step == /\ verdict = "run" /\ l < Len(K.calls) /\ l' = l + 1 /\ UNCHANGED c
        /\ LET k == K.calls[l + 1]
               seen == { i \in memo : Same(K.calls[i], k) }
           IN IF seen = {} THEN memo' = memo \cup {l + 1} /\ verdict' = verdict
              ELSE /\ UNCHANGED memo
                   /\ verdict' = IF \E i \in seen : K.calls[i].ans # k.ans
                                 THEN "other-answer-for-the-same-contraction" ELSE verdict
Finish == /\ verdict = "run" /\ l = Len(K.calls)
          (* the recorder meant all calls to be of as many contractions as it says *)
          /\ verdict' = IF Cardinality(memo) = K.distinct THEN "ok" ELSE "recorder-inconsistent"
          /\ UNCHANGED <<c, l, memo>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Report == verdict \in {"run", "ok"} \/ PrintT(<<"VERDICT", c, verdict, l>>)
=============================================================================
