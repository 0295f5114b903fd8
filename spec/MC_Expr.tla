------------------------------ MODULE MC_Expr ------------------------------
(* Histories of calls of an expression with constants, for several         *)
(* backends, with explicit evaluation and operations that fail.  The        *)
(* program is a chain of Steps operations of which the first K involve only *)
(* constants; failing at operation f of an event aborts it.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Backends, Steps, K, MaxLen, Emit
VARIABLES folded, count, hist
vars == <<folded, count, hist>>
(* folded: backends whose constant part is done; count: how often each       *)
(* backend has completed the constant part                                   *)
Init == folded = {} /\ count = [b \in Backends |-> 0] /\ hist = <<>>
(* asking explicitly always evaluates; a call only if needed *)
Todo(b, ev) == IF ev = "eval" THEN K ELSE IF b \in folded THEN Steps - K ELSE Steps
(* an event executes n operations; with fail f <= n it stops in the f-th *)
Event(b, ev, f) ==
  LET fresh == b \notin folded
      complete == f = 0 \/ f > Todo(b, ev)
      reached == complete \/ (ev # "eval" /\ f > K)
  IN /\ folded' = IF reached THEN folded \cup {b} ELSE folded
     /\ count' = [count EXCEPT ![b] = IF fresh /\ reached THEN @ + 1 ELSE @]
     /\ hist' = Append(hist, [e |-> ev, b |-> b, f |-> f])
Next == Len(hist) < MaxLen /\ \E b \in Backends, ev \in {"call", "eval"}, f \in 0..Steps : Event(b, ev, f)
Spec == Init /\ [][Next]_vars
FoldedOnce == \A b \in Backends : count[b] <= 1
Independent == \A b \in folded : \E i \in 1..Len(hist) : hist[i].b = b
EmitAll == (Emit /\ Len(hist) = MaxLen) => PrintT(<<"OUT", ToJson(hist)>>)
=============================================================================
