------------------------------ MODULE T_Same ------------------------------
(* Judges a result obtained under some circumstance (inside a sharing      *)
(* context, by a reused expression, ...) against the result obtained       *)
(* without it; a result that agrees with the definition is never wrong.    *)
EXTENDS Einsum, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>

Judge(k) ==
  LET x == k.inside
      y == k.outside
      ref == Contract(k.ring, k.ts, k.out)
      right(o) == o.k = "value" /\ o.shape = ref.shape /\ o.data = ref.data
      same == x.k = "value" /\ y.k = "value" /\ x.shape = y.shape /\ x.data = y.data
  IN IF same \/ right(x) THEN (IF k.typed /\ y.k = "value" /\ x.type # y.type THEN "other-type-of-result" ELSE "ok")
     ELSE IF x.k = "error" /\ y.k = "error" /\ x.e = y.e THEN "ok"
     ELSE IF x.k = "error" THEN "raised-" \o x.e
     ELSE IF x.k # "value" THEN "not-numeric"
     ELSE IF x.shape # ref.shape THEN "wrong-shape" ELSE "wrong-value"

Init == c \in 1..Len(Cases) /\ verdict = "?"
Next == verdict = "?" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Report == verdict \in {"?", "ok"} \/ PrintT(<<"VERDICT", c, verdict>>)
=============================================================================
