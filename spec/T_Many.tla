------------------------------- MODULE T_Many -------------------------------
(* Long histories of one cache: request i asks for operation keys[i], and  *)
(* ran[i] says whether the library was asked to perform something for it.  *)
(* Each operation is performed at its first request and never again.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>
Judge(k) ==
  LET I == 1..Len(k.keys)
      R == { i \in I : k.ran[i] }
      asked == { k.keys[i] : i \in I }
      did == { k.keys[i] : i \in R } IN
  IF asked # did THEN "operation-skipped"
  ELSE IF Cardinality(R) # Cardinality(asked) THEN "operation-repeated"
  ELSE "ok"
Init == c \in 1..Len(Cases) /\ verdict = "?"
Next == verdict = "?" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Report == verdict \in {"?", "ok"} \/ PrintT(<<"VERDICT", c, verdict>>)
=============================================================================
