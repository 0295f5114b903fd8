----------------------------- MODULE T_Options -----------------------------
(* Judges contractions with dtype, casting and order.  K.types: types of    *)
(* the operands; K.view: the last step has a single operand (the result may *)
(* be a view of it, in any order).                                          *)
EXTENDS Einsum, Options, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>
JudgeRes(k, ref, o) ==
  LET S == { k.types[i] : i \in 1..Len(k.types) }
      no == Forbidden(S, k.dtype, k.casting)
  IN IF no THEN (IF o.e = "TypeError" THEN "ok" ELSE IF o.e = "" THEN "forbidden-cast-done" ELSE "raised-" \o o.e)
     ELSE IF o.e # "" THEN "raised-" \o o.e
     ELSE IF o.malformed THEN "not-numeric"
     ELSE IF o.type # TypeOf(S, k.dtype) THEN "wrong-type-of-result"
     ELSE IF o.shape # ref.shape THEN "wrong-shape"
     ELSE IF o.data # ref.data THEN "wrong-value"
     ELSE IF ~o.view /\ ((k.order = "C" /\ ~o.cc) \/ (k.order = "F" /\ ~o.fc)) THEN "wrong-memory-order"
     ELSE "ok"
Judge(k) ==
  LET ref == Contract(k.ring, k.ts, k.out)
      bad == { i \in 1..Len(k.res) : JudgeRes(k, ref, k.res[i]) # "ok" }
  IN IF ~Consistent(k.ts) THEN "inconsistent-case" ELSE IF bad = {} THEN "ok" ELSE JudgeRes(k, ref, k.res[CHOOSE i \in bad : TRUE])
Init == c \in 1..Len(Cases) /\ verdict = "?"
Next == verdict = "?" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Report == verdict \in {"?", "ok"} \/ PrintT(<<"VERDICT", c, verdict>>)
=============================================================================
