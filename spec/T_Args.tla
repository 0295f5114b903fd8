------------------------------ MODULE T_Args ------------------------------
(* Judges calls of expressions with `given' arrays where n are needed, and *)
(* constructions that are not allowed.                                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>
Judge(k) ==
  IF k.k = "reject" THEN (IF k.out = k.want THEN "ok" ELSE "not-rejected-" \o k.out)
  ELSE IF k.given = k.n THEN "raised-" \o k.out
  ELSE IF k.out # "ValueError" THEN "wrong-count-gives-" \o k.out
  ELSE IF k.msg # k.n THEN "error-names-wrong-number" ELSE "ok"
Init == c \in 1..Len(Cases) /\ verdict = "?"
Next == verdict = "?" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Report == verdict \in {"?", "ok"} \/ PrintT(<<"VERDICT", c, verdict>>)
=============================================================================
