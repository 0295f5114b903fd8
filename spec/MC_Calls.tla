------------------------------ MODULE MC_Calls ------------------------------
(***************************************************************************)
(* A reused expression: a program of Steps operations on n operands.  Calls *)
(* of several kinds follow each other in any order; some fail before the    *)
(* first operation (wrong number of arrays), some during one.  A call works *)
(* on its own copy of the program; what it leaves behind is nothing.        *)
(*   own = TRUE   the call copies the program                               *)
(*   own = FALSE  it consumes the expression's (TLC then finds a wrong      *)
(*                answer after any call)                                    *)
(* kinds: plain, sizes (arrays of other sizes), conv (converted to another  *)
(* library), native, rec (another library's arrays), few, many, boom (the   *)
(* library fails), rank (an array of another rank), out, share (inside a    *)
(* sharing context), nested (the call is made while another one runs),      *)
(* again (the very arrays of the last call), change (the same arrays, one   *)
(* of them overwritten since), spoil (the same arrays, the last result      *)
(* overwritten by the caller since)                                         *)
(*   Keep = FALSE  nothing of a call's arrays or result is kept             *)
(*   Keep = TRUE   the last result is kept by the identity of the arrays    *)
(*                 (TLC then finds a stale answer after change, and a       *)
(*                 spoilt one after spoil)                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Kinds, Steps, MaxLen, Own, Keep, Emit
VARIABLES list, run, hist, answers, who, ver, kept
\* who: which arrays the caller holds, ver: what is in them, kept: what the expression remembers
vars == <<list, run, hist, answers, who, ver, kept>>
None == [who |-> 0, ver |-> 0, good |-> TRUE]
Full == [i \in 1..Steps |-> i]
Idle == [on |-> FALSE]
Init == list = Full /\ run = Idle /\ hist = <<>> /\ answers = <<>> /\ who = 1 /\ ver = 1 /\ kept = None
Same == {"again", "change", "spoil"}
Fails == {"boom", "rank"}
Begin(kd) == /\ ~run.on /\ Len(hist) < MaxLen /\ hist' = Append(hist, kd)
             /\ who' = (IF kd \in Same THEN who ELSE who + 1)
             /\ ver' = (IF kd \in {"again", "spoil"} THEN ver ELSE ver + 1)
             /\ kept' = (IF kd = "spoil" THEN [kept EXCEPT !.good = FALSE] ELSE kept)
             /\ IF kd \in {"few", "many"} THEN answers' = Append(answers, "refused") /\ UNCHANGED <<list, run>>
                ELSE run' = [on |-> TRUE, kd |-> kd, todo |-> list, did |-> <<>>] /\ UNCHANGED <<list, answers>>
Remembered == Keep /\ run.did = <<>> /\ run.kd \notin Fails /\ kept.who = who
Perform == /\ run.on /\ run.todo # <<>> /\ ~(run.kd \in Fails /\ run.did # <<>>) /\ ~Remembered
           /\ run' = [run EXCEPT !.todo = Tail(@), !.did = Append(@, Head(run.todo))]
           /\ list' = (IF Own THEN list ELSE Tail(list)) /\ UNCHANGED <<hist, answers, who, ver, kept>>
Recall == /\ run.on /\ Remembered
          /\ answers' = Append(answers, IF kept.ver = ver /\ kept.good THEN "right" ELSE "wrong")
          /\ run' = Idle /\ UNCHANGED <<list, hist, who, ver, kept>>
End == /\ run.on /\ ~Remembered /\ (run.todo = <<>> \/ (run.kd \in Fails /\ run.did # <<>>))
       /\ answers' = Append(answers, IF run.kd \in Fails THEN "failed" ELSE IF run.did = Full THEN "right" ELSE "wrong")
       /\ kept' = (IF Keep /\ run.kd \notin Fails THEN [who |-> who, ver |-> ver, good |-> TRUE] ELSE kept)
       /\ run' = Idle /\ UNCHANGED <<list, hist, who, ver>>
Next == Perform \/ Recall \/ End \/ \E kd \in Kinds : Begin(kd)
Spec == Init /\ [][Next]_vars
Pure == \A i \in 1..Len(answers) : answers[i] # "wrong"
AnswerFits == \A i \in 1..Len(answers) :
  answers[i] = (IF hist[i] \in {"few", "many"} THEN "refused" ELSE IF hist[i] \in Fails THEN "failed" ELSE "right")
EmitAll == (Emit /\ Len(hist) = MaxLen /\ ~run.on /\ Len(answers) = MaxLen) => PrintT(<<"OUT", ToJson(hist)>>)
=============================================================================
