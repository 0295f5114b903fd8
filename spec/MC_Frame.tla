------------------------------ MODULE MC_Frame ------------------------------
(***************************************************************************)
(* Histories of calls that deliver their result into views of one buffer.  *)
(* A call computes into a temporary array and then copies, or lets the     *)
(* last operation write element by element; it may fail on the way.  At    *)
(* every moment the cells outside the view are as before the call, and at  *)
(* the end of a call that did not fail the buffer is what Frame says.      *)
(* Flat = TRUE: a call that ignores the view's strides (to be refuted).    *)
(* The kinds of views, last operations and entry points are carried along  *)
(* to be replayed on the code.                                             *)
(***************************************************************************)
EXTENDS Frame, FiniteSets, TLC, Json
CONSTANTS Cells, Views, Lasts, Entries, MaxLen, Flat, Emit
VARIABLES buf, old, call, hist, stamp
vars == <<buf, old, call, hist, stamp>>
(* positions (0-based) of the elements of a view *)
Pos(v) == CASE v = "c" -> <<1, 2>> [] v = "f" -> <<0, 2>> [] v = "step" -> <<1, 3>> [] v = "rev" -> <<2, 1>>
            [] v = "perm" -> <<3, 0>> [] v = "zero" -> <<2>>
Idle == [on |-> FALSE]
Init == buf = [i \in 1..Cells |-> 0] /\ old = buf /\ call = Idle /\ hist = <<>> /\ stamp = 1
Begin == /\ ~call.on /\ Len(hist) < MaxLen
         /\ \E v \in Views, l \in Lasts, e \in Entries :
              /\ call' = [on |-> TRUE, v |-> v, j |-> 0, tmp |-> l # "einsum"]
              /\ hist' = Append(hist, [v |-> v, l |-> l, e |-> e])
         /\ old' = buf /\ UNCHANGED <<buf, stamp>>
Data(v) == [j \in 1..Len(Pos(v)) |-> 10 * stamp + j]
Target(v, j) == IF Flat THEN Pos(v)[1] + j ELSE Pos(v)[j] + 1
WriteOne == /\ call.on /\ ~call.tmp /\ call.j < Len(Pos(call.v))
            /\ buf' = [buf EXCEPT ![Target(call.v, call.j + 1)] = Data(call.v)[call.j + 1]]
            /\ call' = [call EXCEPT !.j = @ + 1] /\ UNCHANGED <<old, hist, stamp>>
CopyAll == /\ call.on /\ call.tmp /\ call.j = 0
           /\ buf' = Written(buf, [j \in 1..Len(Pos(call.v)) |-> Target(call.v, j) - 1], Data(call.v))
           /\ call' = [call EXCEPT !.j = Len(Pos(call.v))] /\ UNCHANGED <<old, hist, stamp>>
Return == call.on /\ call.j = Len(Pos(call.v)) /\ call' = Idle /\ stamp' = stamp + 1 /\ UNCHANGED <<buf, old, hist>>
Fail == call.on /\ call.j < Len(Pos(call.v)) /\ ~Emit /\ call' = Idle /\ stamp' = stamp + 1 /\ UNCHANGED <<buf, old, hist>>
Next == Begin \/ WriteOne \/ CopyAll \/ Return \/ Fail
Spec == Init /\ [][Next]_vars
OthersUntouched == call.on => \A i \in 1..Cells : (i - 1) \notin { Pos(call.v)[j] : j \in 1..Len(Pos(call.v)) } => buf[i] = old[i]
Delivered == (call.on /\ call.j = Len(Pos(call.v))) => buf = Written(old, Pos(call.v), Data(call.v))
EmitAll == (Emit /\ ~call.on /\ Len(hist) = MaxLen) => PrintT(<<"OUT", ToJson(hist)>>)
=============================================================================
