----------------------------- MODULE MC_Backend -----------------------------
(***************************************************************************)
(* Histories of contractions by arrays of several libraries.  Functions    *)
(* found are remembered per library; what is remembered must not influence *)
(* which library works.  Libs with their functions:                        *)
(*   "full" and "full2" have all, "noein" lacks einsum, "nodot" lacks      *)
(*   tensordot (its arrays are NumPy's in disguise), "numpy".              *)
(* need: "dot" (a step for tensordot, with a transposition) or "ein".      *)
(* ByName = TRUE: functions are remembered by name only (to be refuted).   *)
(***************************************************************************)
EXTENDS Backend, TLC, Json
CONSTANTS MaxLen, ByName, Emit
Libs == {"full", "full2", "noein", "nodot", "numpy"}
Funcs == [l \in Libs |-> CASE l = "noein" -> {"tensordot", "transpose"} [] l = "nodot" -> {"einsum"} [] OTHER -> {"tensordot", "transpose", "einsum"}]
Needs == [dot |-> <<"tensordot", "transpose">>, ein |-> <<"einsum">>, both |-> <<"einsum", "tensordot", "transpose">>]
VARIABLES known, hist, log
vars == <<known, hist, log>>
Init == known = {} /\ hist = <<>> /\ log = <<>>
Key(f, l) == IF ByName THEN <<f>> ELSE <<f, l>>
Find(f, l) == IF \E e \in known : e.key = Key(f, l) THEN (CHOOSE e \in known : e.key = Key(f, l)).lib
              ELSE IF f \in Funcs[l] THEN l ELSE "error"
(* an explicitly named library works on arrays it understands *)
Args(first) == {"auto", "None"} \cup (IF first \in {"nodot", "numpy"} THEN {"numpy"} ELSE {"full", "full2", "noein"})
Call(first, arg, need) ==
  LET l == Chosen(Funcs, first, arg)
      fs == Needs[need]
      got == [i \in 1..Len(fs) |-> Find(fs[i], l)]
      bad == { i \in 1..Len(fs) : got[i] = "error" }
      upto == IF bad = {} THEN Len(fs) ELSE (CHOOSE i \in bad : \A j \in bad : i <= j) - 1
  IN /\ known' = known \cup { [key |-> Key(fs[i], l), lib |-> got[i]] : i \in 1..upto }
     /\ log' = Append(log, [used |-> { got[i] : i \in 1..upto }, e |-> bad # {}])
     /\ hist' = Append(hist, [first |-> first, arg |-> arg, need |-> need])
Next == Len(hist) < MaxLen /\ \E first \in Libs, need \in {"dot", "ein", "both"} : \E arg \in Args(first) : Call(first, arg, need)
Spec == Init /\ [][Next]_vars
RightLibrary == \A i \in 1..Len(hist) :
  LET l == Chosen(Funcs, hist[i].first, hist[i].arg) IN
  /\ log[i].used \subseteq {l}
  /\ log[i].e = (\E j \in 1..Len(Needs[hist[i].need]) : Needs[hist[i].need][j] \notin Funcs[l])
EmitAll == (Emit /\ Len(hist) = MaxLen) => PrintT(<<"OUT", ToJson(hist)>>)
=============================================================================
