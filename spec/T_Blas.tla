------------------------------- MODULE T_Blas -------------------------------
(* k = "flag":  can_blas of one pair of operands, with and without shapes   *)
(* k = "steps": classification of every step of a whole path                *)
(* k = "run":   operations a recording library received, and the result     *)
EXTENDS Blas, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>

JudgeFlag(k) ==
  LET res == Range1(k.res)
      same == [i \in 1..Len(k.l) |-> 2] sames == [i \in 1..Len(k.r) |-> 2]
  IN IF k.got # Flag(k.l, k.r, res, k.lsh, k.rsh) THEN "wrong-classification"
     ELSE IF k.gotn # Flag(k.l, k.r, res, same, sames) THEN "wrong-classification-without-shapes"
     ELSE "ok"

(* live: sequence of [l, sh]; a step pops positions (in the order given) and appends its result *)
RemoveAll(live, Q) == LET keep == SelectSeq([i \in 1..Len(live) |-> i], LAMBDA i : (i - 1) \notin Q) IN [j \in 1..Len(keep) |-> live[keep[j]]]
RECURSIVE Steps(_, _, _, _, _)
Steps(live, steps, i, out, blas) ==
  IF i > Len(steps) THEN "ok"
  ELSE
  LET s    == steps[i]
      Q    == Range1(s.inds)
      ops  == [j \in 1..Len(s.inds) |-> live[s.inds[j] + 1]]
      rest == RemoveAll(live, Q)
      have == UNION { Range1(ops[j].l) : j \in 1..Len(ops) }
      need == have \cap (Range1(out) \cup UNION { Range1(rest[j].l) : j \in 1..Len(rest) })
      ts   == [j \in 1..Len(ops) |-> [labels |-> ops[j].l, shape |-> ops[j].sh]]
      flag == IF ~blas \/ Len(ops) # 2 THEN "False" ELSE Flag(ops[1].l, ops[2].l, need, ops[1].sh, ops[2].sh)
      new  == [l |-> s.out, sh |-> [j \in 1..Len(s.out) |-> Size(ts, s.out[j])]]
  IN IF Cardinality(Q) # Len(s.inds) \/ \E p \in Q : p < 0 \/ p >= Len(live) THEN "bad-step"
     ELSE IF s.ins # [j \in 1..Len(ops) |-> ops[j].l] THEN "step-names-other-operands"
     ELSE IF Range1(s.out) # need \/ Len(s.out) # Cardinality(need) THEN "step-result-wrong"
     ELSE IF s.flag # flag THEN "wrong-classification"
     ELSE Steps(Append(rest, new), steps, i + 1, out, blas)

Count(s, Ok(_)) == Cardinality({ i \in 1..Len(s) : Ok(s[i]) })
JudgeRun(k) ==
  LET ref  == Contract("mod", k.ts, k.out)
      tens == Count(k.ops, LAMBDA o : o = "tensordot")
      eins == Count(k.ops, LAMBDA o : o = "einsum")
      want == Count(k.flags, LAMBDA f : f # "False" /\ ~PrefersEinsum(f))
      n    == Len(k.flags)
  IN IF ~Consistent(k.ts) THEN "inconsistent-case"
     ELSE IF k.e # "" THEN "raised-" \o k.e
     ELSE IF k.shape # ref.shape THEN "wrong-shape"
     ELSE IF k.data # ref.data THEN "wrong-value"
     ELSE IF ~k.einsum THEN (IF tens = n /\ eins = 0 THEN "ok" ELSE "steps-without-tensordot")
     ELSE IF tens # want THEN "tensordot-calls-differ-from-report"
     ELSE IF eins # n - want THEN "einsum-calls-differ-from-report"
     ELSE "ok"

Judge(k) == CASE k.k = "flag" -> JudgeFlag(k)
              [] k.k = "steps" -> Steps(k.ts, k.steps, 1, k.out, k.blas)
              [] k.k = "run" -> JudgeRun(k)
              [] k.k = "error" -> "raised-" \o k.e
Init == c \in 1..Len(Cases) /\ verdict = "?"
Next == verdict = "?" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Report == verdict \in {"?", "ok"} \/ PrintT(<<"VERDICT", c, verdict>>)
=============================================================================
