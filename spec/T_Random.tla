------------------------------ MODULE T_Random ------------------------------
(* Validates event logs of real RandomOptimizer objects.  Times are in       *)
(* milliseconds; K.script is the outcome of every trial by number.           *)
EXTENDS RandomSearch, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, done, m, t, fin, verdict
vars == <<c, l, done, m, t, fin, verdict>>
K == Cases[c]
Idle == [rep |-> 0, pre |-> 1, par |-> FALSE, base |-> 0, sub |-> 0, used |-> 0, out |-> {}]
(* K.evs[l] is the failure of a trial, or one of the cancellations after it *)
Failing == l > 0 /\ K.evs[l].ev \in {"fail", "cancel"} /\ (\E i \in 1..l : K.evs[i].ev = "fail" /\ \A j \in i+1..l : K.evs[j].ev = "cancel")
T0 == [call |-> -1, first |-> -1, last |-> -1, max |-> -1]

(* the state an optimizer shows after `n' trials *)
Shows(k, e, n) ==
  IF Len(e.costs) # n \/ Len(e.sizes) # n THEN "history-length"
  ELSE IF \E i \in 1..n : e.costs[i] # k.script[i].f \/ e.sizes[i] # k.script[i].s THEN "history-wrong"
  ELSE IF n = 0 THEN "ok"
  ELSE LET B == BestSet(k.min, k.script, n) IN
       IF \A i \in B : <<e.bf, e.bs>> # <<k.script[i].f, k.script[i].s>> THEN "best-score-wrong"
       ELSE IF \A i \in B : e.path # k.script[i].p \/ e.attr # k.script[i].p THEN "best-path-wrong"
       ELSE "ok"

(* the time of the call has run out for certain *)
Late == t.max >= 0 /\ t.first >= 0 /\ t.last >= 0 /\ t.last - t.first > t.max + 1

Ev == K.evs[l + 1]
Go(done2, m2, t2, fin2) == l' = l + 1 /\ done' = done2 /\ m' = m2 /\ t' = t2 /\ fin' = fin2 /\ UNCHANGED <<c, verdict>>
Bad(why) == verdict' = why /\ UNCHANGED <<c, l, done, m, t, fin>>
First(x) == IF t.first < 0 THEN [t EXCEPT !.first = x] ELSE t

Step ==
  /\ verdict = "?" /\ l < Len(K.evs)
  /\ LET e == Ev IN
     CASE e.ev = "call" -> Go(done, Begin(done, e.rep, e.pre, e.par), [call |-> e.t, first |-> -1, last |-> -1, max |-> e.max], {})
       [] e.ev = "run" ->
            IF Late THEN Bad("trial-after-time-limit")
            ELSE IF ~CanRun(m, e.r) THEN Bad(IF m.par THEN "serial-trial-in-parallel-search" ELSE IF m.used >= m.rep THEN "too-many-trials" ELSE "wrong-trial-number")
            ELSE Go(done + 1, Ran(m), [First(e.t0) EXCEPT !.last = e.t], fin)
       [] e.ev = "submit" ->
            IF ~m.par THEN Bad("submission-in-serial-search")
            ELSE IF m.sub >= m.rep THEN Bad("too-many-trials")
            ELSE IF e.r # m.base + m.sub THEN Bad("wrong-trial-number")
            ELSE IF ~CanSubmit(m, e.r) THEN Bad("more-jobs-than-pre-dispatch")
            ELSE Go(done, Submitted(m, e.r), First(e.t), IF e.fin THEN fin \cup {e.r} ELSE fin)
       [] e.ev = "result" ->
            IF Late THEN Bad("trial-after-time-limit")
            ELSE IF e.r \notin m.out THEN Bad("result-taken-twice")
            ELSE IF ~CanTake(m, e.r) THEN Bad("waits-before-pre-dispatch-is-reached")
            ELSE Go(done + 1, Taken(m, e.r), [t EXCEPT !.last = e.t], fin)
       [] e.ev = "fail" ->
            IF Late THEN Bad("trial-after-time-limit")
            ELSE IF ~CanFail(m, e.r) THEN Bad("wrong-trial-number")
            ELSE Go(done, Failed(m, e.r), t, fin)
       [] e.ev = "cancel" -> Go(done, Cancelled(m, e.r), t, fin)
       [] e.ev = "ret" ->
            IF Failing THEN Bad("exception-of-a-trial-lost")
            ELSE IF m.used < m.rep /\ (t.max < 0 \/ e.t - t.call < t.max) THEN Bad("stopped-early")
            ELSE IF m.out \ fin # {} THEN Bad("jobs-left-running")
            ELSE LET v == Shows(K, e, done) IN IF v # "ok" THEN Bad(v) ELSE Go(done, Idle, T0, {})
       [] e.ev = "raise" ->
            IF Failing
            THEN IF e.e # e.want THEN Bad("other-exception-than-the-trial's")
                 ELSE IF m.out \ fin # {} THEN Bad("jobs-left-running")
                 ELSE LET v == Shows(K, e, done) IN IF v # "ok" THEN Bad(v) ELSE Go(done, Idle, T0, {})
            ELSE IF ~e.foreign THEN Bad("raised-" \o e.e)
            ELSE IF e.e # "ValueError" THEN Bad("other-contraction-not-refused")
            ELSE LET v == Shows(K, e, done) IN IF v # "ok" THEN Bad("refused-call-changed-state") ELSE Go(done, Idle, T0, {})
       [] OTHER -> Bad("unknown-event")
Finish == verdict = "?" /\ l = Len(K.evs) /\ verdict' = "ok" /\ UNCHANGED <<c, l, done, m, t, fin>>
Init == c \in 1..Len(Cases) /\ l = 0 /\ done = 0 /\ m = Idle /\ t = T0 /\ fin = {} /\ verdict = "?"
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Window == m.par => Cardinality(m.out) <= m.pre
Report == verdict \in {"?", "ok"} \/ PrintT(<<"VERDICT", c, verdict>>)
=============================================================================
