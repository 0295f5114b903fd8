------------------------------- MODULE MC_Path -------------------------------
(***************************************************************************)
(* The path machine in both its forms, run side by side: `lin' is the list  *)
(* with recycled positions, `ids' the same list in single-assignment ids.   *)
(* Every behaviour is a complete path; the two recorded forms must describe *)
(* the same merges, and each must be computable from the other.             *)
(***************************************************************************)
EXTENDS Network, TLC, PathForms, Json
CONSTANTS MaxN, MaxArity, Singles, Emit
VARIABLES n, live, ids, next, lpath, spath, singles
vars == <<n, live, ids, next, lpath, spath, singles>>
Init == /\ n \in 1..MaxN /\ live = [i \in 1..n |-> {i}] /\ ids = [i \in 1..n |-> i - 1]
        /\ next = n /\ lpath = <<>> /\ spath = <<>> /\ singles = 0
Inc(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Step == \E S \in SUBSET (0..Len(live) - 1) :
          /\ S # {} /\ Cardinality(S) <= MaxArity
          /\ (Cardinality(S) = 1 => singles < Singles)
          /\ singles' = IF Cardinality(S) = 1 THEN singles + 1 ELSE singles
          /\ LET pos == Inc(S) IN
             /\ live' = StepLive(live, pos)
             /\ ids' = Append(DropAt(ids, pos), next)
             /\ lpath' = Append(lpath, pos)
             /\ spath' = Append(spath, Inc({ ids[p + 1] : p \in S }))
          /\ next' = next + 1 /\ UNCHANGED n
Next == Step
Spec == Init /\ [][Next]_vars
Complete == Len(live) = 1 /\ lpath # <<>>
Partition == /\ UNION { live[i] : i \in 1..Len(live) } = 1..n
             /\ \A i, j \in 1..Len(live) : i # j => live[i] \cap live[j] = {}
FormsAgree == Complete => /\ SameSteps(LinToSsa(lpath), spath)
                          /\ SameSteps(SsaToLin(spath), lpath)
                          /\ NumInputs(lpath) = n
                          /\ SsaWellFormed(spath, n)
                          /\ WellFormedFrom(n, lpath) = "ok"
EmitAll == (Emit /\ Complete) => PrintT(<<"OUT", ToJson([n |-> n, lin |-> lpath, ssa |-> spath])>>)
==============================================================================
