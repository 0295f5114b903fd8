----------------------------- MODULE T_Backend -----------------------------
(* k = "disp"  which recording libraries were used                         *)
(* k = "res"   type, dtype and value a real library handed back            *)
EXTENDS Backend, Einsum, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>
SetOf(s) == { s[i] : i \in 1..Len(s) }
JudgeDisp(k) ==
  LET f == [x \in DOMAIN k.funcs |-> SetOf(k.funcs[x])]
      ch == Chosen(f, k.first, k.arg)
      ref == Contract("mod", k.ts, k.out) IN
  IF k.e # "" THEN (IF ch \in DOMAIN f /\ "einsum" \notin f[ch] /\ k.needs THEN "ok" ELSE "raised-" \o k.e)
  ELSE IF \E u \in SetOf(k.used) : u # ch THEN "wrong-library-used"
  ELSE IF ch # "numpy" /\ k.used = <<>> THEN "library-not-used"
  ELSE IF k.restype # (IF ch = "numpy" THEN k.numpytype ELSE ch) THEN "wrong-result-type"
  ELSE IF k.shape # ref.shape THEN "wrong-shape"
  ELSE IF k.data # ref.data THEN "wrong-value" ELSE "ok"
JudgeRes(k) ==
  LET ref == Contract(k.ring, k.ts, k.out) IN
  IF k.e # "" THEN "raised-" \o k.e
  ELSE IF k.restype # ResultLib(k.back, k.given) THEN "wrong-result-type"
  ELSE IF k.dtype # k.resdtype THEN "wrong-dtype"
  ELSE IF k.malformed THEN "not-numeric"
  ELSE IF k.shape # ref.shape THEN "wrong-shape"
  ELSE IF k.data # ref.data THEN "wrong-value" ELSE "ok"
Init == c \in 1..Len(Cases) /\ verdict = "?"
Next == verdict = "?" /\ verdict' = (IF Cases[c].k = "disp" THEN JudgeDisp(Cases[c]) ELSE JudgeRes(Cases[c])) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Report == verdict \in {"?", "ok"} \/ PrintT(<<"VERDICT", c, verdict>>)
=============================================================================
