------------------------------ MODULE T_Frame ------------------------------
(* One case is a history of calls that write into views of one buffer; each call has the *)
(* operands it was given, the buffer before and after it, and digests of   *)
(* everything else the caller owns.                                        *)
EXTENDS Frame, Einsum, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i, buf, verdict
vars == <<c, i, buf, verdict>>
K == Cases[c]
Judge(k, b) ==
  LET ref == IF ~k.hasout THEN [data |-> <<>>] ELSE IF k.big THEN Eliminate(k.ring, k.ts, k.out) ELSE Contract(k.ring, k.ts, k.out) IN
  IF k.e # "" THEN "raised-" \o k.e
  ELSE IF ~Untouched(k.objs) THEN
       "modified-" \o (LET j == CHOOSE j \in 1..Len(k.objs) : k.objs[j].before # k.objs[j].after IN k.objs[j].name)
  ELSE IF ~k.hasout THEN "ok"
  ELSE IF ~k.same THEN "returned-another-object"
  ELSE IF k.after = Written(b, k.pos, ref.data) THEN "ok"
  ELSE IF \E j \in 1..Len(k.pos) : k.after[k.pos[j] + 1] # ref.data[j] THEN "out-not-written"
  ELSE "wrote-beside-out"
Init == c \in 1..Len(Cases) /\ i = 0 /\ buf = Cases[c].buffer /\ verdict = "?"
Next == /\ verdict \in {"?", "ok"}
        /\ i < Len(K.calls)
        /\ i' = i + 1
        /\ verdict' = Judge(K.calls[i + 1], buf)
        /\ buf' = IF K.calls[i + 1].hasout THEN K.calls[i + 1].after ELSE buf
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Report == verdict \in {"?", "ok"} \/ PrintT(<<"VERDICT", c, verdict>>)
=============================================================================
