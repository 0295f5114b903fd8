------------------------------ MODULE T_Share ------------------------------
(* Judges logs of real threads using the sharing contexts with a recording *)
(* library.  Events of a log, with t the thread:                           *)
(*   enter  cache passed in (0: none), y: cache yielded                    *)
(*   exit   swallowed: did the context swallow the exception?              *)
(*   run    prog, leaves        a contraction starts                       *)
(*   exec   op                  the library starts an operation            *)
(*   done   res / fail          it returns array res / raises              *)
(*   ret    out "ok" or the class of the exception, res the array returned *)
(* sh, in: what currently_sharing and get_sharing_cache say afterwards.    *)
EXTENDS Sharing, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, S, failed, verdict
vars == <<c, l, S, failed, verdict>>
K == Cases[c]
E == K.evs[l + 1]

Visible(T, e) == IF e.sh # Sharing(T, e.t) THEN "wrong-currently-sharing"
                 ELSE IF e.sh /\ e.in # Inner(T, e.t) THEN "wrong-innermost-cache"
                 ELSE IF ~e.sh /\ e.in # 0 THEN "cache-outside-context" ELSE "ok"

Judge(e) ==
  CASE e.e = "enter" -> IF e.out # "ok" THEN "enter-raised-" \o e.out
                        ELSE IF e.cache # 0 /\ e.y # e.cache THEN "passed-cache-not-used"
                        ELSE IF e.cache = 0 /\ e.y \in DOMAIN S.store THEN "fresh-context-got-old-cache" ELSE "ok"
    [] e.e = "exit" -> IF e.swallowed THEN "exception-swallowed" ELSE IF e.out # "ok" THEN "exit-raised-" \o e.out ELSE "ok"
    [] e.e = "run"  -> "ok"
    [] e.e = "exec" -> IF S.run[e.t].st # "run" THEN "operation-out-of-place"
                       ELSE IF MayExec(S, e.t, e.op) # {} THEN "ok"
                       ELSE IF \E cf \in Close(S, e.t, S.run[e.t], S.run[e.t].confs) :
                                 cf.pc < Len(S.run[e.t].prog) /\ MaySame(e.op, OpAt(S.run[e.t], cf))
                            THEN "operation-repeated" ELSE "operation-not-asked-for"
    [] e.e = "done" -> "ok"
    [] e.e = "fail" -> "ok"
    [] e.e = "ret"  -> IF e.out = "ok" THEN (IF failed[e.t] THEN "error-lost" ELSE IF ~CanReturn(S, e.t) THEN "operation-skipped"
                                          ELSE IF CanReturnWith(S, e.t, e.res) THEN "ok" ELSE "wrong-array-returned")
                       ELSE IF ~failed[e.t] THEN "raised-" \o e.out ELSE IF e.out \notin {"Boom", "BaseBoom"} THEN "other-error-" \o e.out ELSE "ok"
    [] OTHER -> "unknown-event"
After(e) ==
  CASE e.e = "enter" -> EnterTo(S, e.t, e.y)
    [] e.e = "exit" -> ExitTo(S, e.t)
    [] e.e = "run"  -> StartTo(S, e.t, e.prog, e.leaves)
    [] e.e = "exec" -> ExecTo(S, e.t, e.op)
    [] e.e = "done" -> DoneTo(S, e.t, e.res)
    [] e.e = "fail" -> FailTo(S, e.t)
    [] e.e = "ret"  -> ReturnTo(S, e.t)

(* what count_cached_ops says at the end about each cache *)
(* (two threads may have executed the same operation at the same time)   *)
Count(x, kind) == LET O == { h.op : h \in { h \in S.store[x] : h.op.kind = kind } } IN
                  Cardinality({ { g \in O : MustSame(g, o) } : o \in O })
JudgeCounts == IF \A i \in 1..Len(K.counts) :
                    LET q == K.counts[i] IN q.cache \in DOMAIN S.store => \A kind \in {"einsum", "tensordot", "transpose"} : q.n[kind] = Count(q.cache, kind)
               THEN "ok" ELSE "wrong-count-of-cached-operations"

T0 == 1..K.threads
Init == /\ c \in 1..Len(Cases) /\ l = 0 /\ verdict = "?"
        /\ S = [Coarse([t \in T0 |-> <<>>], [x \in Rng(K.known) |-> {}], [t \in T0 |-> Idle]) EXCEPT !.fine = K.fine]
        /\ failed = [t \in T0 |-> FALSE]
Step == /\ verdict = "?" /\ l < Len(K.evs) /\ UNCHANGED c
        /\ LET v == Judge(E) IN
           IF v # "ok" THEN verdict' = v /\ UNCHANGED <<l, S, failed>>
           ELSE LET T == Seen(S, After(E), E.t, S.run[E.t].cache, IF E.e = "done" /\ S.run[E.t].cache # 0 THEN {[op |-> S.run[E.t].op, res |-> E.res]} ELSE {})
                    w == IF E.e \in {"enter", "exit", "ret"} THEN Visible(T, E) ELSE "ok" IN
                /\ S' = T /\ l' = l + 1
                /\ failed' = IF E.e = "run" THEN [failed EXCEPT ![E.t] = FALSE] ELSE IF E.e = "fail" THEN [failed EXCEPT ![E.t] = TRUE] ELSE failed
                /\ verdict' = IF w = "ok" THEN "?" ELSE w
Done == verdict = "?" /\ l = Len(K.evs) /\ verdict' = JudgeCounts /\ UNCHANGED <<c, l, S, failed>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Report == verdict \in {"?", "ok"} \/ PrintT(<<"VERDICT", c, verdict, l>>)
=============================================================================
