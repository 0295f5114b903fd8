-------------------------------- MODULE Frame --------------------------------
(***************************************************************************)
(* What a call may change.  The caller's memory consists of named objects  *)
(* and, if an output array is supplied, of the cells of the buffer it is a *)
(* view of.  A call writes the result through the view and leaves every    *)
(* other cell and every other object as it was.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

(* the buffer after writing data through a view whose k-th element lives in cell pos[k] (0-based) *)
Written(before, pos, data) ==
  [i \in 1..Len(before) |->
     IF \E k \in 1..Len(pos) : pos[k] + 1 = i
     THEN data[CHOOSE k \in 1..Len(pos) : pos[k] + 1 = i]
     ELSE before[i]]
Untouched(objs) == \A i \in 1..Len(objs) : objs[i].before = objs[i].after
=============================================================================
