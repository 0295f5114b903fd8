------------------------------- MODULE T_Pool -------------------------------
(* Histories of settings, searches and deletion of a real optimizer.         *)
EXTENDS Pool, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, set, started, verdict
vars == <<c, l, set, started, verdict>>
K == Cases[c]
(* e.alive: pool worker processes alive after the event; e.usable: the user's pool still accepts work *)
Judge(s, st, e) ==
  IF e.e # "" THEN "raised-" \o e.e
  ELSE IF ~e.usable THEN "users-pool-was-shut-down"
  ELSE IF e.op = "set" /\ e.alive > 0 THEN "created-pool-left-running"
  ELSE IF e.op = "del" /\ e.alive > 0 THEN "created-pool-left-running"
  ELSE IF e.op = "search" /\ s = "own" /\ e.alive = 0 THEN "no-pool-used"
  ELSE IF e.op = "search" /\ s # "own" /\ e.alive > 0 THEN "pool-though-not-asked-for"
  ELSE IF e.op = "search" /\ s = "user" /\ e.jobs # K.rep THEN "users-pool-not-used"
  ELSE IF e.op = "search" /\ s # "user" /\ e.jobs # 0 THEN "detached-pool-used"
  ELSE IF e.op = "search" /\ e.costs # K.want[e.n] THEN "differs-from-serial-search"
  ELSE "ok"
Init == c \in 1..Len(Cases) /\ l = 0 /\ set = "off" /\ started = FALSE /\ verdict = "?"
Step == /\ verdict = "?" /\ l < Len(K.evs) /\ UNCHANGED c
        /\ LET e == K.evs[l + 1]
               s == IF e.op = "set" THEN e.to ELSE set
               v == Judge(s, started, e) IN
           IF v # "ok" THEN verdict' = v /\ UNCHANGED <<l, set, started>>
           ELSE l' = l + 1 /\ set' = s /\ started' = (e.op = "search") /\ UNCHANGED verdict
Finish == verdict = "?" /\ l = Len(K.evs) /\ verdict' = "ok" /\ UNCHANGED <<c, l, set, started>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Report == verdict \in {"?", "ok"} \/ PrintT(<<"VERDICT", c, verdict>>)
=============================================================================
