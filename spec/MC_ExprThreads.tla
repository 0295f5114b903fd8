-------------------------- MODULE MC_ExprThreads --------------------------
(***************************************************************************)
(* Concurrent first calls.  The expression keeps two things: the list of    *)
(* remaining operations and, per backend, the operands they apply to.  A    *)
(* call looks up the operands (evaluating the constants if there are none), *)
(* then takes the list.  Both are either "full" or "rest"; a call is right  *)
(* if it applies the list to the operands it belongs to.                    *)
(* ListFirst: is the list updated before the operands are published?        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, ListFirst
VARIABLES pc, list, ops, mine, wrong
vars == <<pc, list, ops, mine, wrong>>
Init == pc = [t \in Threads |-> "look"] /\ list = "full" /\ ops = "none" /\ mine = [t \in Threads |-> "none"] /\ wrong = FALSE
Go(t, x) == pc' = [pc EXCEPT ![t] = x]
Look(t) == pc[t] = "look" /\ UNCHANGED <<list, ops, wrong>>
           /\ IF ops = "none" THEN Go(t, "eval") /\ UNCHANGED mine ELSE Go(t, "take") /\ mine' = [mine EXCEPT ![t] = ops]
Eval(t) == pc[t] = "eval" /\ Go(t, "pub1") /\ UNCHANGED <<list, ops, mine, wrong>>
Pub1(t) == pc[t] = "pub1" /\ Go(t, "pub2") /\ UNCHANGED <<mine, wrong>>
           /\ IF ListFirst THEN list' = "rest" /\ UNCHANGED ops ELSE ops' = "rest" /\ UNCHANGED list
Pub2(t) == pc[t] = "pub2" /\ Go(t, "look") /\ UNCHANGED <<mine, wrong>>
           /\ IF ListFirst THEN ops' = "rest" /\ UNCHANGED list ELSE list' = "rest" /\ UNCHANGED ops
Take(t) == pc[t] = "take" /\ Go(t, "done") /\ UNCHANGED <<list, ops, mine>> /\ wrong' = (wrong \/ list # mine[t])
Next == \E t \in Threads : Look(t) \/ Eval(t) \/ Pub1(t) \/ Pub2(t) \/ Take(t)
Spec == Init /\ [][Next]_vars
Right == ~wrong
=============================================================================
