------------------------------ MODULE T_Limit ------------------------------
(* Memory limits: replays limited paths on the path machine.                *)
(* k = "path"    a path found with limit `lim'                              *)
(* k = "same"    paths found with no limit and with a synonym for it        *)
(* k = "arg"     the limit a path finder received for a symbolic limit      *)
(* k = "reject"  outcome of an invalid limit                                *)
EXTENDS Limit, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, live, verdict
vars == <<c, l, live, verdict>>
K == Cases[c]

Kl == K @@ [obj |-> "pair", haslim |-> TRUE]
RECURSIVE BProdSeq(_, _)
BProdSeq(s, sizes) == IF s = <<>> THEN <<1>> ELSE BMulInt(BProdSeq(Tail(s), sizes), sizes[Head(s)])
MaxInput(k) == LET V == { BProdSeq(k.terms[i], k.sizes) : i \in 1..N(k) } \cup {BProdSeq(k.out, k.sizes)}
               IN CHOOSE x \in V : \A y \in V : BLe(y, x)

Quick(k) ==
  IF k.k = "same" THEN (IF k.e # "" THEN "raised-" \o k.e ELSE IF k.path # k.path2 THEN "unlimited-path-differs" ELSE "ok")
  ELSE IF k.k = "arg" THEN (IF k.e # "" THEN "raised-" \o k.e
                            ELSE IF k.sym = "max_input" THEN (IF k.hasgot /\ k.got = MaxInput(k) THEN "ok" ELSE "max-input-wrong")
                            ELSE IF k.sym = "none" THEN (IF k.hasgot THEN "unlimited-not-none" ELSE "ok")
                            ELSE (IF k.hasgot /\ k.got = k.lim THEN "ok" ELSE "limit-not-passed-on"))
  ELSE IF k.k = "reject" THEN (IF k.e = "ValueError" THEN "ok" ELSE "invalid-limit-accepted")
  ELSE IF k.e # "" THEN (IF k.mayfail THEN "ok" ELSE "raised-" \o k.e)
  ELSE "run"

Init == c \in 1..Len(Cases) /\ l = 0 /\ live = LiveInit(K) /\ verdict = "?"
Start == verdict = "?" /\ verdict' = Quick(K) /\ UNCHANGED <<c, l, live>>
Step == /\ verdict = "run" /\ l < Len(K.path)
        /\ LET v == JudgeStep(Kl, live, K.path[l + 1], l + 1 = Len(K.path), K.fresh) IN
           IF v # "ok" THEN verdict' = v /\ UNCHANGED <<c, l, live>>
           ELSE live' = StepLive(live, K.path[l + 1]) /\ l' = l + 1 /\ UNCHANGED <<c, verdict>>
Finish == /\ verdict = "run" /\ l = Len(K.path) /\ UNCHANGED <<c, l, live>>
          /\ verdict' = IF Len(live) = 1 THEN "ok" ELSE "path-malformed"
Next == Start \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
Report == verdict \in {"?", "run", "ok"} \/ PrintT(<<"VERDICT", c, verdict>>)
=============================================================================
