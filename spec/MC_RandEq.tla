------------------------------ MODULE MC_RandEq ------------------------------
(* The generator: places for labels are drawn one after the other, first    *)
(* one for each operand, then anywhere but where the label already is.      *)
(* Every possible draw leads to what was asked for, and the generator never *)
(* gets stuck.                                                              *)
EXTENDS RandEq, FiniteSetsExt
CONSTANTS MaxN, MaxBonds, MaxOut
VARIABLES r, left, terms, out, done
vars == <<r, left, terms, out, done>>
Labels == 1..(r.bonds + r.nout)
Init == /\ r \in [n : 2..MaxN, bonds : 0..MaxBonds, nout : 0..MaxOut, glob : BOOLEAN]
        /\ left = [x \in Labels |-> IF x <= r.nout THEN 1 ELSE 2]
        /\ terms = [i \in 1..r.n |-> <<>>] /\ out = <<>> /\ done = FALSE
Empty == { i \in 1..r.n : terms[i] = <<>> }
(* the first n places are one for each operand, in order *)
Where(x) == IF Empty # {} THEN {Min(Empty)} ELSE { i \in 1..r.n : x \notin Rg(terms[i]) }
Place == \E x \in Labels : left[x] > 0 /\ \E i \in Where(x) :
            /\ terms' = [terms EXCEPT ![i] = Append(@, x)] /\ left' = [left EXCEPT ![x] = @ - 1] /\ UNCHANGED <<r, out, done>>
Finish == /\ ~done /\ (\A x \in Labels : left[x] = 0) /\ done' = TRUE
          /\ LET g == r.bonds + r.nout + 1
                 o == [j \in 1..r.nout |-> j]
             IN /\ terms' = IF r.glob THEN [i \in 1..r.n |-> Append(terms[i], g)] ELSE terms
                /\ out' = IF r.glob THEN <<g>> \o o ELSE o
          /\ UNCHANGED <<r, left>>
Next == Place \/ Finish
Spec == Init /\ [][Next]_vars
Right == done => Verdict(r, [terms |-> terms, out |-> out]) = "ok"
NeverStuck == done \/ ENABLED Next
=============================================================================
