----------------------------- MODULE T_Registry -----------------------------
(* k = "hist"  a recorded history of register/get/use events               *)
(* k = "alg"   the path found under a name, with the paths of the          *)
(*             algorithms the documentation can refer to                   *)
(* k = "args"  what a registered finder was given                          *)
EXTENDS Registry, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, tab, verdict
vars == <<c, l, tab, verdict>>
K == Cases[c]
Rng(s) == { s[i] : i \in 1..Len(s) }

JudgeEv(t, e) ==
  IF e.op = "reg" THEN
     IF e.out = "ok" THEN (IF CanRegister(t, e.name) THEN "ok" ELSE "replaced-existing-name")
     ELSE IF e.out = "KeyError" THEN (IF CanRegister(t, e.name) THEN "refused-new-name" ELSE "ok") ELSE "raised-" \o e.out
  ELSE LET r == LookUp(t, e.name) IN
     IF e.out = "ok" THEN (IF ~r.ok THEN "unknown-name-accepted" ELSE IF r.fn # e.res THEN "wrong-finder" ELSE "ok")
     ELSE IF e.out = "KeyError" THEN (IF r.ok THEN "known-name-refused" ELSE "ok") ELSE "raised-" \o e.out

JudgeAlg(k) ==
  IF k.e # "" THEN "raised-" \o k.e
  ELSE LET a == Algorithm(k.name, k.n) IN
       IF a \notin DOMAIN k.ref THEN "no-reference"
       ELSE IF k.path # k.ref[a] THEN "not-the-documented-algorithm" ELSE "ok"

JudgeArgs(k) ==
  IF k.e # "" THEN "raised-" \o k.e
  ELSE IF k.calls # 1 THEN "finder-not-called-once"
  ELSE IF [i \in 1..Len(k.got.ins) |-> Rng(k.got.ins[i])] # [i \in 1..Len(k.terms) |-> Rng(k.terms[i])] THEN "wrong-index-sets"
  ELSE IF Rng(k.got.out) # Rng(k.out) THEN "wrong-output-set"
  ELSE IF { <<x.x, x.s>> : x \in Rng(k.got.sizes) } # { <<x, k.sizes[x]>> : x \in UNION { Rng(k.terms[i]) : i \in 1..Len(k.terms) } } THEN "wrong-sizes"
  ELSE IF k.got.lim # k.lim THEN "wrong-limit"
  ELSE IF k.path # k.given THEN "returned-path-not-used"
  ELSE "ok"

Init == /\ c \in 1..Len(Cases) /\ l = 0
        /\ tab = IF K.k = "hist" THEN [x \in { Lower(y) : y \in Rng(K.builtin) } |-> 0] ELSE <<>>
        /\ verdict = "?"
Run == /\ verdict = "?" /\ K.k = "hist" /\ l < Len(K.evs) /\ UNCHANGED c
       /\ LET e == K.evs[l + 1]
              v == JudgeEv(tab, e) IN
          IF v # "ok" THEN verdict' = v /\ UNCHANGED <<l, tab>>
          ELSE l' = l + 1 /\ UNCHANGED verdict /\ tab' = IF e.op = "reg" /\ e.out = "ok" THEN Registered(tab, e.name, e.fn) ELSE tab
Done == /\ verdict = "?" /\ UNCHANGED <<c, l, tab>>
        /\ \/ K.k = "hist" /\ l = Len(K.evs) /\ verdict' = "ok"
           \/ K.k = "alg" /\ verdict' = JudgeAlg(K)
           \/ K.k = "args" /\ verdict' = JudgeArgs(K)
Next == Run \/ Done
Spec == Init /\ [][Next]_vars
Report == verdict \in {"?", "ok"} \/ PrintT(<<"VERDICT", c, verdict>>)
=============================================================================
