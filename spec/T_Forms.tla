------------------------------- MODULE T_Forms -------------------------------
(* Conversions recorded from the real code against the two path machines.    *)
EXTENDS PathForms, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>
(* k.lin is a complete linear path given to the code; k.ssa its answer;      *)
(* k.sin a complete single-assignment path given to the code, k.lout its     *)
(* answer; k.back the linear form of k.ssa, k.forth the ssa form of k.lout   *)
Judge(k) ==
  IF k.e # "" THEN "raised-" \o k.e
  ELSE IF WellFormedFrom(NumInputs(k.lin), k.lin) # "ok" \/ ~SsaWellFormed(k.sin, NumInputs(k.sin)) THEN "bad-case"
  ELSE IF ~SameSteps(k.ssa, LinToSsa(k.lin)) THEN "linear-to-ssa-wrong"
  ELSE IF WellFormedFrom(NumInputs(k.sin), k.lout) # "ok" THEN "ssa-to-linear-malformed"
  ELSE IF ~SameSteps(k.lout, SsaToLin(k.sin)) THEN "ssa-to-linear-wrong"
  ELSE IF ~SameSteps(k.back, k.lin) THEN "roundtrip-linear"
  ELSE IF ~SameSteps(k.forth, k.sin) THEN "roundtrip-ssa"
  ELSE "ok"
Init == c \in 1..Len(Cases) /\ verdict = "?"
Next == verdict = "?" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Report == verdict \in {"?", "ok"} \/ PrintT(<<"VERDICT", c, verdict>>)
==============================================================================
