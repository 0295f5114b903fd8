------------------------------ MODULE MC_Greedy ------------------------------
(* The algorithm: products of equal operands first; a queue of candidate    *)
(* pairs, from which a cheapest is taken (obsolete ones are thrown away     *)
(* when they come up); then outer products.  Ties are open.  Each operand   *)
(* is a label set; equal ones are multiplied as they arise.  The rules of   *)
(* Greedy are evaluated alongside (obs, bad).                               *)
EXTENDS Greedy, TLC
CONSTANTS NTerms, Labels, MaxRank, Sizes, Fns
VARIABLES terms, out, sizes, f, live, queue, ph, obs, bad, pend
vars == <<terms, out, sizes, f, live, queue, ph, obs, bad, pend>>
O == LET S(i) == terms[i] IN out \cup { x \in terms[1] : \A i \in 1..Len(terms) : x \in terms[i] }
SmallSets == { S \in SUBSET Labels : Cardinality(S) <= MaxRank }
FnSet == { CASE n = 1 -> [k |-> "linear", a |-> 1, b |-> 1] [] n = 2 -> [k |-> "linear", a |-> 3, b |-> 1] [] n = 3 -> [k |-> "largest"] [] n = 4 -> [k |-> "negative"] : n \in Fns }
Init == /\ terms \in [1..NTerms -> SmallSets]
        /\ out \in SUBSET (UNION { terms[i] : i \in 1..NTerms })
        /\ sizes \in [Labels -> Sizes]
        /\ f \in FnSet
        /\ live = terms /\ queue = {} /\ ph = "equal" /\ bad = {} /\ pend = 0
        /\ obs = [live |-> terms, offers |-> {}, phase |-> "start"]
(* pos: positions in live *)
Observe(i, j) == /\ bad' = IF obs.phase = "blur" THEN bad ELSE bad \cup ({Verdict(f, sizes, O, obs, i, j)} \ {"ok"})
                 /\ obs' = IF obs.phase = "blur" THEN obs ELSE After(f, sizes, O, obs, i, j)
Const == UNCHANGED <<terms, out, sizes, f>>
Multiply == /\ ph = "equal" /\ EqualPair(live)
            /\ \E i, j \in 1..Len(live) : i < j /\ live[i] = live[j] /\ (\A p, q \in 1..Len(live) : (p < q /\ live[p] = live[q]) => q >= j)
                 /\ live' = Append(Drop2(live, i, j), live[i]) /\ Observe(i, j)
            /\ UNCHANGED <<queue, ph, pend>> /\ Const
At2(x) == CHOOSE i \in 1..Len(live) : live[i] = x
CandOf(x, y, lv) == [a |-> x, b |-> y, cost |-> PairCost(f, sizes, lv, O, x, y), r |-> Result(lv, O, x, y)]
Best(x, ys, lv) == LET C == { CandOf(x, y, lv) : y \in ys } IN { c \in C : \A d \in C : c.cost <= d.cost }
(* all ways to fill the initial queue: one best candidate for each operand and label *)
Slots == { v \in UNION { {i} \X (live[i] \ O) : i \in 1..Len(live) } : \E j \in (v[1] + 1)..Len(live) : v[2] \in live[j] }
SlotBest(v) == Best(live[v[1]], { live[j] : j \in { j \in (v[1] + 1)..Len(live) : v[2] \in live[j] } }, live)
Fill == /\ ph = "equal" /\ ~EqualPair(live) /\ ph' = "pair"
        (* ties are broken by the order of the operands; two ways are explored *)
        /\ \E hi \in BOOLEAN : queue' = { CHOOSE c \in SlotBest(v) : \A d \in SlotBest(v) : IF hi THEN At2(c.b) >= At2(d.b) ELSE At2(c.b) <= At2(d.b) : v \in Slots }
        /\ UNCHANGED <<live, obs, bad, pend>> /\ Const
Take == /\ ph = "pair" /\ pend = 0 /\ queue # {}
        /\ \E c \in queue :
             /\ \A d \in queue : c.cost <= d.cost
             /\ IF c.a \notin Lbl(live) \/ c.b \notin Lbl(live)
                THEN queue' = queue \ {c} /\ UNCHANGED <<live, obs, bad, pend>>
                ELSE LET i == At2(c.a) j == At2(c.b)
                         rest == Drop2(live, i, j)
                         dup == c.r \in Lbl(rest)
                         lv == Append(rest, c.r)
                         ys == { rest[k] : k \in { k \in 1..Len(rest) : rest[k] # c.r /\ Contractible(O, c.r, rest[k]) } }
                     IN /\ live' = lv /\ Observe(i, j)
                        /\ pend' = IF dup THEN 1 ELSE 0
                        /\ IF dup \/ ys = {} THEN queue' = queue \ {c}
                           ELSE \E n \in Best(c.r, ys, lv) : queue' = (queue \ {c}) \cup {n}
        /\ UNCHANGED ph /\ Const
(* the contraction gave the labels of an operand that is there: multiply the two *)
Absorb == /\ pend = 1 /\ pend' = 0
          /\ LET j == Len(live) i == CHOOSE i \in 1..(Len(live) - 1) : live[i] = live[j]
                 rest == Drop2(live, i, j) x == live[j] lv == Append(rest, x)
                 ys == { rest[k] : k \in { k \in 1..Len(rest) : Contractible(O, x, rest[k]) } }
             IN /\ live' = lv /\ Observe(i, j)
                /\ IF ys = {} THEN UNCHANGED queue ELSE \E n \in Best(x, ys, lv) : queue' = queue \cup {n}
          /\ UNCHANGED ph /\ Const
ToOuter == ph = "pair" /\ pend = 0 /\ queue = {} /\ Len(live) > 1 /\ ph' = "outer" /\ UNCHANGED <<live, queue, obs, bad, pend>> /\ Const
Outer == /\ ph = "outer" /\ Len(live) > 1
         /\ \E i, j \in 1..Len(live) :
              /\ i < j
              /\ \A k \in 1..Len(live) : k \notin {i, j} => SizeOf(sizes, live[k] \cap O) >= SizeOf(sizes, live[i] \cap O) /\ SizeOf(sizes, live[k] \cap O) >= SizeOf(sizes, live[j] \cap O)
              /\ live' = Append(Drop2(live, i, j), (live[i] \cup live[j]) \cap O) /\ Observe(i, j)
         /\ UNCHANGED <<queue, ph, pend>> /\ Const
Next == Multiply \/ Fill \/ Take \/ Absorb \/ ToOuter \/ Outer
Spec == Init /\ [][Next]_vars
(* the queue never runs dry while a pair can be contracted *)
NoEarlyOuter == ph = "outer" => \A i, j \in 1..Len(live) : i < j => ~Contractible(O, live[i], live[j]) \/ obs.phase = "outer" \/ obs.phase = "blur"
NoPairAtSwitch == (ph = "pair" /\ pend = 0 /\ queue = {}) => ~PairLeft(live, O)
ObeysRules == bad = {}
Fnl == Len(live) = 1 => live[1] \subseteq O
=============================================================================
