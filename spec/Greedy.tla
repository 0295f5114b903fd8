------------------------------- MODULE Greedy -------------------------------
(***************************************************************************)
(* The greedy strategy.  An operand is its set of labels; O is the set of  *)
(* labels that are never summed pairwise: the output and the labels common *)
(* to all operands.                                                        *)
(*                                                                         *)
(* Two machines share these definitions:                                   *)
(*   - MC_Greedy runs the algorithm with a queue of candidate pairs;       *)
(*   - the rules below (Allowed) say what may be observed of it.           *)
(* MC_Greedy checks that the first obeys the second; T_Greedy judges paths *)
(* of the real code by the rules.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Lbl(s) == { s[i] : i \in 1..Len(s) }
SizeOf(sizes, L) == FoldSet(LAMBDA x, a : a * sizes[x], 1, L)
Drop2(live, i, j) == LET keep == SelectSeq([k \in 1..Len(live) |-> k], LAMBDA k : k # i /\ k # j) IN [k \in 1..Len(keep) |-> live[keep[k]]]

Holders(live, d) == Cardinality({ i \in 1..Len(live) : d \in live[i] })
(* labels of the contraction of a and b *)
Result(live, O, a, b) ==
  LET both == a \cap b either == a \cup b IN
    (either \cap O) \cup { d \in both \ O : Holders(live, d) >= 3 } \cup { d \in (either \ both) \ O : Holders(live, d) >= 2 }

CostOf(f, s12, s1, s2) ==
  CASE f.k = "linear" -> f.a * s12 - f.b * (s1 + s2)
    [] f.k = "result" -> s12
    [] f.k = "largest" -> 2 * s12 - (IF s1 > s2 THEN s1 ELSE s2)
    [] f.k = "negative" -> 0 - s12
PairCost(f, sizes, live, O, a, b) == CostOf(f, SizeOf(sizes, Result(live, O, a, b)), SizeOf(sizes, a), SizeOf(sizes, b))

Contractible(O, a, b) == (a \cap b) \ O # {}
EqualPair(live) == \E i, j \in 1..Len(live) : i < j /\ live[i] = live[j]
PairLeft(live, O) == \E i, j \in 1..Len(live) : i < j /\ Contractible(O, live[i], live[j])

(* An offer: one of the pairs {x, y}, y in ys, all of cost `cost', is        *)
(* available; with the labels the result would have.                        *)
OfferOf(f, sizes, live, O, x, ys) ==
  LET m == Min({ PairCost(f, sizes, live, O, x, y) : y \in ys })
      best == { y \in ys : PairCost(f, sizes, live, O, x, y) = m }
  IN [x |-> x, ys |-> best, cost |-> m, sure |-> TRUE, res |-> { <<y, Result(live, O, x, y)>> : y \in best }]
(* at the start: for each operand and label, its best partner among the later operands *)
FirstOffers(f, sizes, live, O) ==
  { OfferOf(f, sizes, live, O, live[w[1]], { live[j] : j \in { j \in (w[1] + 1)..Len(live) : w[2] \in live[j] } }) :
      w \in { v \in UNION { {i} \X (live[i] \ O) : i \in 1..Len(live) } : \E j \in (v[1] + 1)..Len(live) : v[2] \in live[j] } }
(* for an operand just made: its best partner *)
NewOffer(f, sizes, live, O, x) ==
  LET ys == { live[j] : j \in { j \in 1..Len(live) : live[j] # x /\ Contractible(O, x, live[j]) } }
  IN IF ys = {} THEN {} ELSE { OfferOf(f, sizes, live, O, x, ys) }
Alive(live, o) == LET S == Lbl(live) IN o.sure /\ o.x \in S /\ o.ys \subseteq S

(* the offers that mention the pair {a, b}; their results may be out of date *)
(* when another operand was absorbed meanwhile                               *)
Mentions(offers, a, b) ==
  UNION { { [cost |-> o.cost, r |-> p[2]] : p \in { q \in o.res : {o.x, q[1]} = {a, b} } } : o \in offers }

(***************************************************************************)
(* What may be observed.  s = [live, offers, phase]: phase is "pair" until  *)
(* the first outer product, then "outer".  The verdict on contracting the   *)
(* operands at i and j:                                                     *)
(***************************************************************************)
Verdict(f, sizes, O, s, i, j) ==
  LET a == s.live[i] b == s.live[j]
      out(k) == SizeOf(sizes, s.live[k] \cap O)
      offers == IF s.phase = "start" THEN FirstOffers(f, sizes, s.live, O) ELSE s.offers
      mine == {PairCost(f, sizes, s.live, O, a, b)} \cup { m.cost : m \in Mentions(offers, a, b) }
      cost == Min(mine)
  IN IF s.phase # "outer" /\ EqualPair(s.live) THEN (IF a = b THEN "ok" ELSE "equal-operands-not-multiplied-first")
     ELSE IF s.phase # "outer" /\ PairLeft(s.live, O) THEN
        IF ~Contractible(O, a, b) THEN "outer-product-while-a-pair-can-be-contracted"
        ELSE IF s.phase = "start" /\ \E p, q \in 1..Len(s.live) : p < q /\ Contractible(O, s.live[p], s.live[q]) /\ PairCost(f, sizes, s.live, O, s.live[p], s.live[q]) < cost
             THEN "first-contraction-not-cheapest"
        ELSE IF \E o \in offers : Alive(s.live, o) /\ o.cost < cost THEN "cheaper-pair-available"
        ELSE "ok"
     ELSE IF \E k \in 1..Len(s.live) : k # i /\ k # j /\ (out(k) < out(i) \/ out(k) < out(j)) THEN "outer-product-not-of-the-smallest"
     ELSE "ok"

(* the state after it; phase "blur": what the algorithm believes the result to be is not determined by the rules *)
After(f, sizes, O, s, i, j) ==
  LET a == s.live[i] b == s.live[j]
      rest == Drop2(s.live, i, j)
      offers == IF s.phase = "start" THEN FirstOffers(f, sizes, s.live, O) ELSE s.offers
  IN IF s.phase # "outer" /\ EqualPair(s.live)
       THEN LET live == Append(rest, a) IN
            [live |-> live, phase |-> s.phase,
             offers |-> IF s.phase = "start" THEN {} ELSE s.offers \cup (IF EqualPair(live) THEN {} ELSE NewOffer(f, sizes, live, O, a))]
     ELSE IF s.phase # "outer" /\ PairLeft(s.live, O)
       THEN LET r == Result(s.live, O, a, b)
                live == Append(rest, r)
                stale == \E m \in Mentions(offers, a, b) : m.r # r
                most == Max({PairCost(f, sizes, s.live, O, a, b)} \cup { m.cost : m \in Mentions(offers, a, b) })
                (* offers that may have come up while a partner was gone may have been thrown away for good *)
                kept == { IF Alive(s.live, o) \/ o.cost > most THEN o ELSE [o EXCEPT !.sure = FALSE] : o \in offers }
            IN [live |-> live, phase |-> IF stale THEN "blur" ELSE "pair",
                offers |-> IF EqualPair(live) THEN kept ELSE kept \cup NewOffer(f, sizes, live, O, r)]
     ELSE [live |-> Append(rest, (a \cup b) \cap O), phase |-> "outer", offers |-> {}]
StartState(terms) == [live |-> [i \in 1..Len(terms) |-> Lbl(terms[i])], offers |-> {}, phase |-> "start"]
Never(terms, out) == Lbl(out) \cup { x \in Lbl(terms[1]) : \A i \in 1..Len(terms) : x \in Lbl(terms[i]) }
=============================================================================
