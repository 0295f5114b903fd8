------------------------------ MODULE MC_Branch ------------------------------
(* The depth-first search with its bounds: candidates are assessed in turn  *)
(* against the best result and the best progress at that depth, the cheapest *)
(* nb of those left are explored.  The order of assessment and of equally   *)
(* cheap candidates is open (one of two is explored).                       *)
EXTENDS Branch, TLC
CONSTANTS NTerms, Labels, MaxRank, Sizes, NBs, Cuts, Objs, Fns, Flip
VARIABLES k, stack, best, prog, found, floor, sure, lev
vars == <<k, stack, best, prog, found, floor, sure, lev>>
INF == 1000000
SmallSets == { S \in SUBSET Labels : Cardinality(S) <= MaxRank }
Seq1(S) == SetToSeq(S)
FnOf(n) == CASE n = 1 -> [k |-> "linear", a |-> 1, b |-> 1] [] n = 2 -> [k |-> "result"] [] n = 3 -> [k |-> "negative"]
Init == /\ \E t \in [1..NTerms -> SmallSets] : \E o \in SUBSET (UNION { t[i] : i \in 1..NTerms }) :
             \E sz \in [Labels -> Sizes] : \E nb \in NBs, cu \in Cuts, ob \in Objs, fn \in Fns :
               k = [terms |-> [i \in 1..NTerms |-> Seq1(t[i])], out |-> Seq1(o), sizes |-> sz, obj |-> ob, nb |-> nb, cut |-> cu, f |-> FnOf(fn)]
        /\ stack = <<[B |-> Blocks0(k), f |-> 0, s |-> 0, todo |-> {}, open |-> TRUE, n |-> 0]>>
        /\ best = [f |-> INF, s |-> INF] /\ prog = [d \in 2..NTerms |-> INF] /\ found = FALSE
        /\ floor = {[B |-> Blocks0(k), f |-> 0]} /\ sure = {[B |-> Blocks0(k), f |-> 0, s |-> 0]} /\ lev = 1
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
(* assess the pairs of Q in the given order *)
RECURSIVE Assess(_, _, _)
Assess(Q, pg, acc) ==
  IF Q = <<>> THEN [cand |-> acc, pg |-> pg]
  ELSE LET p == Head(Q)
           nf == Top.f + PFlops(k, p)
           ns == Max2(Top.s, PSize(k, p))
           d == Cardinality(Top.B)
       IN IF ~Better(k, nf, ns, best.f, best.s) THEN Assess(Tail(Q), pg, acc)
          ELSE IF nf < pg[d] THEN Assess(Tail(Q), [pg EXCEPT ![d] = nf], acc \cup {[p |-> p, c |-> PCost(k, p), f |-> nf, s |-> ns]})
          ELSE IF nf > k.cut * pg[d] THEN Assess(Tail(Q), pg, acc)
          ELSE Assess(Tail(Q), pg, acc \cup {[p |-> p, c |-> PCost(k, p), f |-> nf, s |-> ns]})
Order(S, rev) == LET s == SetToSeq(S) IN IF rev THEN Reverse(s) ELSE s
Leaf == /\ stack # <<>> /\ Cardinality(Top.B) = 1 /\ best' = [f |-> Top.f, s |-> Top.s] /\ found' = TRUE /\ stack' = Pop
        /\ UNCHANGED <<k, prog, floor, sure, lev>>
Expand == /\ stack # <<>> /\ Top.open /\ Cardinality(Top.B) > 1
          /\ \E rev \in Flip :
               LET C == { p \in Pairs(Top.B) : Conn(k, p) }
                   r1 == Assess(Order(C, rev), prog, {})
                   r2 == IF r1.cand = {} THEN Assess(Order(Pairs(Top.B), rev), r1.pg, {}) ELSE r1
               IN /\ prog' = r2.pg
                  /\ stack' = Append(Pop, [Top EXCEPT !.todo = r2.cand, !.open = FALSE])
          /\ UNCHANGED <<k, best, found, floor, sure, lev>>
Descend == /\ stack # <<>> /\ ~Top.open /\ Cardinality(Top.B) > 1
           /\ IF Top.todo = {} \/ (k.nb > 0 /\ Top.n = k.nb) THEN stack' = Pop
              ELSE \E rev \in Flip :
                   LET M == { x \in Top.todo : \A y \in Top.todo : x.c <= y.c }
                       x == Order(M, rev)[1] IN
                   stack' = Append(Append(Pop, [Top EXCEPT !.todo = @ \ {x}, !.n = @ + 1]), [B |-> After(Top.B, x.p), f |-> x.f, s |-> x.s, todo |-> {}, open |-> TRUE, n |-> 0])
           /\ UNCHANGED <<k, best, prog, found, floor, sure, lev>>
(* when the search is over, work out what it must not have missed *)
Check == /\ stack = <<>> /\ lev < NTerms /\ lev' = lev + 1
         /\ floor' = MinLevel(k, floor) /\ sure' = SureLevel(k, sure, MinFlops(floor')) /\ UNCHANGED <<k, stack, best, prog, found>>
Next == Leaf \/ Expand \/ Descend \/ Check
Spec == Init /\ [][Next]_vars
Found == stack = <<>> => found
NoneMissed == (stack = <<>> /\ lev = NTerms) => \A x \in sure : ~Better(k, x.f, x.s, best.f, best.s)
=============================================================================
