---------------------------- MODULE MC_RandGreedy ----------------------------
(* The algorithm of a random greedy trial: a queue of all candidate pairs;  *)
(* up to NB valid ones are taken off in order of cost (obsolete ones met on *)
(* the way are thrown away), one of them is drawn and the others are put    *)
(* back.  The rules of RandGreedy are evaluated alongside (obs, bad).       *)
(* PutBack = FALSE is a broken variant that forgets the others.             *)
EXTENDS RandGreedy, TLC
CONSTANTS NTerms, Labels, MaxRank, Sizes, NB, PutBack
VARIABLES terms, out, sizes, f, zero, live, queue, ph, obs, bad, pend
vars == <<terms, out, sizes, f, zero, live, queue, ph, obs, bad, pend>>
O == out \cup { x \in terms[1] : \A i \in 1..Len(terms) : x \in terms[i] }
SmallSets == { S \in SUBSET Labels : Cardinality(S) <= MaxRank }
Init == /\ terms \in [1..NTerms -> SmallSets]
        /\ out \in SUBSET (UNION { terms[i] : i \in 1..NTerms })
        /\ sizes \in [Labels -> Sizes]
        /\ f = [k |-> "linear", a |-> 1, b |-> 1] /\ zero \in BOOLEAN
        /\ live = terms /\ queue = {} /\ ph = "equal" /\ bad = {} /\ pend = 0
        /\ obs = [live |-> terms, cands |-> {}, phase |-> "start"]
Observe(i, j) == /\ bad' = IF obs.phase = "blur" THEN bad ELSE bad \cup ({RVerdict(f, sizes, O, obs, NB, zero, i, j)} \ {"ok"})
                 /\ obs' = IF obs.phase = "blur" THEN obs ELSE RAfter(f, sizes, O, obs, i, j)
Const == UNCHANGED <<terms, out, sizes, f, zero>>
Multiply == /\ ph = "equal" /\ EqualPair(live)
            /\ \E i, j \in 1..Len(live) : i < j /\ live[i] = live[j] /\ (\A p, q \in 1..Len(live) : (p < q /\ live[p] = live[q]) => q >= j)
                 /\ live' = Append(Drop2(live, i, j), live[i]) /\ Observe(i, j)
            /\ UNCHANGED <<queue, ph, pend>> /\ Const
At2(x) == CHOOSE i \in 1..Len(live) : live[i] = x
Fill == /\ ph = "equal" /\ ~EqualPair(live) /\ ph' = "pair" /\ queue' = AllCands(f, sizes, live, O)
        /\ UNCHANGED <<live, obs, bad, pend>> /\ Const
Valid(c) == c.p \subseteq Lbl(live)
(* possible sets of candidates to draw from: the cheapest valid ones, ties open *)
Heads == LET V == { c \in queue : Valid(c) } n == IF Cardinality(V) < NB THEN Cardinality(V) ELSE NB IN
         { D \in SUBSET V : Cardinality(D) = n /\ \A c \in D : \A d \in V \ D : c.cost <= d.cost }
Take == /\ ph = "pair" /\ pend = 0 /\ queue # {}
        /\ \E D \in Heads, dropties \in BOOLEAN :
             LET most == IF D = {} THEN 0 ELSE Max({ c.cost : c \in D })
                 gone == { c \in queue : ~Valid(c) /\ (Cardinality(D) < NB \/ c.cost < most \/ (dropties /\ c.cost = most)) }
                 left == (queue \ gone) \ (IF PutBack THEN {} ELSE D)
             IN IF D = {} THEN queue' = left /\ UNCHANGED <<live, obs, bad, pend>>
                ELSE \E c \in D :
                  /\ zero => \A d \in D : c.cost <= d.cost
                  /\ LET a == CHOOSE x \in c.p : TRUE
                         b == CHOOSE y \in c.p : y # a
                         i == At2(a) j == At2(b)
                         rest == Drop2(live, i, j)
                         dup == c.r \in Lbl(rest)
                         lv == Append(rest, c.r)
                     IN /\ live' = lv /\ Observe(i, j)
                        /\ pend' = IF dup THEN 1 ELSE 0
                        /\ queue' = (left \ {c}) \cup (IF dup THEN {} ELSE NewCands(f, sizes, lv, O, c.r))
        /\ UNCHANGED ph /\ Const
Absorb == /\ pend = 1 /\ pend' = 0
          /\ LET j == Len(live) i == CHOOSE i \in 1..(Len(live) - 1) : live[i] = live[j]
                 lv == Append(Drop2(live, i, j), live[j])
             IN live' = lv /\ Observe(i, j) /\ queue' = queue \cup NewCands(f, sizes, lv, O, live[j])
          /\ UNCHANGED ph /\ Const
ToOuter == ph = "pair" /\ pend = 0 /\ queue = {} /\ Len(live) > 1 /\ ph' = "outer" /\ UNCHANGED <<live, queue, obs, bad, pend>> /\ Const
Outer == /\ ph = "outer" /\ Len(live) > 1
         /\ \E i, j \in 1..Len(live) :
              /\ i < j
              /\ \A k \in 1..Len(live) : k \notin {i, j} => SizeOf(sizes, live[k] \cap O) >= SizeOf(sizes, live[i] \cap O) /\ SizeOf(sizes, live[k] \cap O) >= SizeOf(sizes, live[j] \cap O)
              /\ live' = Append(Drop2(live, i, j), (live[i] \cup live[j]) \cap O) /\ Observe(i, j)
         /\ UNCHANGED <<queue, ph, pend>> /\ Const
Next == Multiply \/ Fill \/ Take \/ Absorb \/ ToOuter \/ Outer
Spec == Init /\ [][Next]_vars
NoPairAtSwitch == (ph = "pair" /\ pend = 0 /\ queue = {}) => ~PairLeft(live, O)
ObeysRules == bad = {}
(* the table of exponentials decreases and multiplies as it should *)
ASSUME \A k \in 0..600 : ExpNeg64(k + 1) <= ExpNeg64(k)
ASSUME \A a, b \in 0..40 : Abs((ExpNeg64(a * 8) * ExpNeg64(b * 8)) \div Unit - ExpNeg64((a + b) * 8)) <= 12
=============================================================================
