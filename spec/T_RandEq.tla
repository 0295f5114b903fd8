------------------------------ MODULE T_RandEq ------------------------------
(* k = "eq"     a generated contraction, with the sizes reported and drawn  *)
(* k = "same"   two answers to one request with one seed                    *)
(* k = "shapes" shapes built for an equation                                *)
EXTENDS RandEq, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>
Shape(t, sizes) == [i \in 1..Len(t) |-> sizes[t[i]]]
ShapesAgree(k) == Len(k.shapes) = Len(k.terms) /\ \A i \in 1..Len(k.terms) : k.shapes[i] = Shape(k.terms[i], k.sizes)
Judge(k) ==
  IF k.e # "" THEN "raised-" \o k.e
  ELSE IF k.k = "same" THEN (IF k.a = k.b THEN "ok" ELSE "seed-does-not-determine-the-equation")
  ELSE IF k.k = "shapes" THEN (IF ShapesAgree(k) THEN "ok" ELSE "wrong-shape")
  ELSE IF Verdict(k.r, k) # "ok" THEN Verdict(k.r, k)
  ELSE IF ~ShapesAgree(k) THEN "shape-does-not-match-sizes"
  ELSE IF \E x \in Used(k) : k.sizes[x] < k.dmin \/ k.sizes[x] > k.dmax THEN "size-out-of-range"
  ELSE IF k.extra THEN "size-of-unknown-label"
  ELSE "ok"
Init == c \in 1..Len(Cases) /\ verdict = "?"
Next == verdict = "?" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Report == verdict \in {"?", "ok"} \/ PrintT(<<"VERDICT", c, verdict>>)
=============================================================================
