------------------------------ MODULE T_Expr ------------------------------
(* Judges the operations a recording library received during a history of  *)
(* one expression: events [e: "call"/"eval", b: backend, leaves, ops:       *)
(* executed (each [kind, args, spec, res], res 0: it raised), out].         *)
EXTENDS Expression, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, known, verdict
vars == <<c, l, known, verdict>>
K == Cases[c]
E == K.evs[l + 1]
Consts == Rng(K.consts)
CS == IsConst(K.prog, Consts)
M == Fold(K.prog, Consts, K.last)
Kn(b) == known[b]

(* go through the executed operations: R = [done, ex, v] *)
Exec1(R, e, o) ==
  LET Cand == { k \in 1..Len(K.prog) : k \notin R.ex /\ Ready(K.prog, R.done, k)
                                       /\ MaySame(OpOf(K.prog, e.leaves, R.done, k), [kind |-> o.kind, args |-> o.args, spec |-> o.spec]) }
      (* a call does not repeat the folded part; asking explicitly may *)
      Ok == { k \in Cand : e.e = "eval" \/ ~(k <= M /\ Has(Kn(e.b), k)) }
  IN IF R.v # "ok" THEN R
     ELSE IF Ok = {} THEN [R EXCEPT !.v = IF Cand # {} THEN "constant-operation-repeated" ELSE "operation-not-asked-for"]
     ELSE LET k == CHOOSE k \in Ok : \A j \in Ok : k <= j IN
          IF o.res = 0 THEN [R EXCEPT !.ex = @ \cup {k}]
          ELSE [R EXCEPT !.ex = @ \cup {k}, !.done = With(@, k, o.res)]
Exec(e) == FoldLeft(LAMBDA R, o : Exec1(R, e, o), [done |-> Kn(e.b), ex |-> {}, v |-> "ok"], e.ops)

Judge(e, R) ==
  IF R.v # "ok" THEN R.v
  ELSE IF e.fault THEN (IF e.out = "Boom" THEN "ok" ELSE "error-lost")
  ELSE IF e.out # "ok" THEN "raised-" \o e.out
  ELSE IF e.e = "call" THEN (IF \A k \in 1..Len(K.prog) : Has(R.done, k) THEN "ok" ELSE "operation-skipped")
  ELSE IF \A k \in 1..M : Has(R.done, k) THEN (IF R.ex \subseteq CS THEN "ok" ELSE "more-than-constants") ELSE "constants-not-evaluated"

Only(f, D) == [k \in D |-> f[k]]
Learn(e, R) ==
  (* after a fault the constant part counts as done only if execution got past it *)
  IF e.fault /\ ~(\E k \in R.ex : k > M) THEN Kn(e.b)
  ELSE Only(R.done, DOMAIN R.done \cap CS)

Init == c \in 1..Len(Cases) /\ l = 0 /\ verdict = "?" /\ known = [b \in 1..K.nback |-> <<>>]
Step == /\ verdict = "?" /\ l < Len(K.evs) /\ UNCHANGED c
        /\ LET R == Exec(E)
               v == Judge(E, R) IN
           IF v # "ok" THEN verdict' = v /\ UNCHANGED <<l, known>>
           ELSE l' = l + 1 /\ UNCHANGED verdict /\ known' = [known EXCEPT ![E.b] = Learn(E, R)]
Done == verdict = "?" /\ l = Len(K.evs) /\ verdict' = "ok" /\ UNCHANGED <<c, l, known>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Report == verdict \in {"?", "ok"} \/ PrintT(<<"VERDICT", c, verdict, l>>)
=============================================================================
