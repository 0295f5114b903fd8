---------------------------- MODULE RandomSearch ----------------------------
(***************************************************************************)
(* Repeated random search.  Trial number r (from 0) has an outcome that     *)
(* depends on r only: [f, s, p] = cost, size, path.  `done' trials have     *)
(* been consumed so far, in the order of their numbers.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
LexLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Score(minimize, o) == IF minimize = "flops" THEN <<o.f, o.s>> ELSE <<o.s, o.f>>
(* outcomes with the best score among the first n of a script *)
BestSet(minimize, script, n) == { i \in 1..n : \A j \in 1..n : ~LexLt(Score(minimize, script[j]), Score(minimize, script[i])) }

(***************************************************************************)
(* One call: m = [rep, pre, par, base, sub, used, out] where base = trials  *)
(* consumed before the call, sub = trials submitted in this call, used =    *)
(* trials consumed in this call, out = submitted and not yet consumed.      *)
(***************************************************************************)
Begin(done, rep, pre, par) == [rep |-> rep, pre |-> pre, par |-> par, base |-> done, sub |-> 0, used |-> 0, out |-> {}]
CanRun(m, r) == ~m.par /\ m.used < m.rep /\ r = m.base + m.used
Ran(m) == [m EXCEPT !.used = @ + 1]
CanSubmit(m, r) == m.par /\ m.sub < m.rep /\ r = m.base + m.sub /\ Cardinality(m.out) < m.pre
Submitted(m, r) == [m EXCEPT !.sub = @ + 1, !.out = @ \cup {r}]
(* a result is only waited for once as many jobs as possible are out *)
CanTake(m, r) == m.par /\ r \in m.out /\ (Cardinality(m.out) = m.pre \/ m.sub = m.rep)
Taken(m, r) == [m EXCEPT !.used = @ + 1, !.out = @ \ {r}]
Cancelled(m, r) == [m EXCEPT !.out = @ \ {r}]
(* a trial that raises: its number is not used up, the exception ends the call *)
CanFail(m, r) == CanRun(m, r) \/ CanTake(m, r)
Failed(m, r) == [m EXCEPT !.out = @ \ {r}]
=============================================================================
