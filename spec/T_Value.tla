------------------------------ MODULE T_Value ------------------------------
(* Judges results of the real code against the definition of the           *)
(* contraction.  A case has the operands, the output labels, and the       *)
(* distinct outcomes that all evaluated configurations produced.           *)
EXTENDS Einsum, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>

JudgeOutcome(ref, o) ==
  CASE o.k = "value" -> IF o.shape # ref.shape THEN "wrong-shape"
                        ELSE IF o.data # ref.data THEN "wrong-value" ELSE "ok"
    [] o.k = "nopath" -> "ok"
    [] o.k = "malformed" -> "not-numeric"
    [] o.k = "error" -> "raised-" \o o.e
    [] OTHER -> "unknown-outcome"

Judge(k) ==
  LET ref == IF k.big THEN Eliminate(k.ring, k.ts, k.out) ELSE Contract(k.ring, k.ts, k.out)
      bad == { i \in 1..Len(k.outcomes) : JudgeOutcome(ref, k.outcomes[i]) # "ok" }
  IN IF ~Consistent(k.ts) THEN "inconsistent-case"
     ELSE IF k.outcomes = <<>> THEN "no-outcome"
     ELSE IF bad = {} THEN "ok"
     ELSE JudgeOutcome(ref, k.outcomes[CHOOSE i \in bad : TRUE])

Init == c \in 1..Len(Cases) /\ verdict = "?"
Next == verdict = "?" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Report == verdict \in {"?", "ok"} \/ PrintT(<<"VERDICT", c, verdict>>)
=============================================================================
