----------------------------- MODULE RandGreedy -----------------------------
(***************************************************************************)
(* Random greedy trials.  As Greedy, but at each step the pair to contract *)
(* is drawn from the nbranch cheapest of ALL pairs that can be contracted,  *)
(* pair c with a probability proportional to exp(-(cost(c) - least) / t),   *)
(* where t is the temperature, times max(1, |least|) if it is relative;     *)
(* with temperature 0 only pairs as cheap as the cheapest are drawn.        *)
(*                                                                          *)
(* s = [live, cands, phase]: cands are the pairs offered so far, with the   *)
(* cost and result they had then.  A pair of operands that were used up and *)
(* have come up again may be offered in an outdated form ("blur": what the  *)
(* algorithm believes is not determined by the rules any more).             *)
(***************************************************************************)
EXTENDS Greedy

CandFor(f, sizes, live, O, x, y) == [p |-> {x, y}, cost |-> PairCost(f, sizes, live, O, x, y), r |-> Result(live, O, x, y)]
AllCands(f, sizes, live, O) ==
  { CandFor(f, sizes, live, O, live[w[1]], live[w[2]]) : w \in { v \in (1..Len(live)) \X (1..Len(live)) : v[1] < v[2] /\ Contractible(O, live[v[1]], live[v[2]]) } }
NewCands(f, sizes, live, O, x) ==
  { CandFor(f, sizes, live, O, x, live[j]) : j \in { k \in 1..Len(live) : live[k] # x /\ Contractible(O, x, live[k]) } }
Pairs(live, O) == { {live[w[1]], live[w[2]]} : w \in { v \in (1..Len(live)) \X (1..Len(live)) : v[1] < v[2] /\ Contractible(O, live[v[1]], live[v[2]]) } }
CostP(f, sizes, live, O, p) == LET x == CHOOSE x \in p : TRUE y == CHOOSE y \in p : y # x IN PairCost(f, sizes, live, O, x, y)
(* the pairs that are certainly offered at a lower cost *)
Cheaper(f, sizes, live, O, cands, cost) ==
  { p \in Pairs(live, O) : CostP(f, sizes, live, O, p) < cost /\ \A m \in cands : m.p = p => m.cost < cost }

RVerdict(f, sizes, O, s, nbranch, zero, i, j) ==
  LET a == s.live[i] b == s.live[j]
      out(k) == SizeOf(sizes, s.live[k] \cap O)
      cands == IF s.phase = "start" THEN AllCands(f, sizes, s.live, O) ELSE s.cands
      cost == Min({PairCost(f, sizes, s.live, O, a, b)} \cup { m.cost : m \in { x \in cands : x.p = {a, b} } })
      low == Cheaper(f, sizes, s.live, O, cands, cost)
  IN IF s.phase # "outer" /\ EqualPair(s.live) THEN (IF a = b THEN "ok" ELSE "equal-operands-not-multiplied-first")
     ELSE IF s.phase # "outer" /\ PairLeft(s.live, O) THEN
        IF ~Contractible(O, a, b) THEN "outer-product-while-a-pair-can-be-contracted"
        ELSE IF zero /\ low # {} THEN "temperature-zero-but-not-a-cheapest-pair"
        ELSE IF Cardinality(low) >= nbranch THEN "not-among-the-cheapest-pairs"
        ELSE "ok"
     ELSE IF \E k \in 1..Len(s.live) : k # i /\ k # j /\ (out(k) < out(i) \/ out(k) < out(j)) THEN "outer-product-not-of-the-smallest"
     ELSE "ok"

RAfter(f, sizes, O, s, i, j) ==
  LET a == s.live[i] b == s.live[j]
      rest == Drop2(s.live, i, j)
      cands == IF s.phase = "start" THEN AllCands(f, sizes, s.live, O) ELSE s.cands
  IN IF s.phase # "outer" /\ EqualPair(s.live)
       THEN LET live == Append(rest, a) IN
            [live |-> live, phase |-> s.phase,
             cands |-> IF s.phase = "start" THEN {} ELSE s.cands \cup (IF EqualPair(live) THEN {} ELSE NewCands(f, sizes, live, O, a))]
     ELSE IF s.phase # "outer" /\ PairLeft(s.live, O)
       THEN LET r == Result(s.live, O, a, b)
                live == Append(rest, r)
                stale == \E m \in cands : m.p = {a, b} /\ m.r # r
            IN [live |-> live, phase |-> IF stale THEN "blur" ELSE "pair",
                cands |-> IF EqualPair(live) THEN cands ELSE cands \cup NewCands(f, sizes, live, O, r)]
     ELSE [live |-> Append(rest, (a \cup b) \cap O), phase |-> "outer", cands |-> {}]
RStart(terms) == [live |-> [i \in 1..Len(terms) |-> Lbl(terms[i])], cands |-> {}, phase |-> "start"]

(***************************************************************************)
(* Frequencies of the first choice.  exp(-k/64) in units of 1/32768, from   *)
(* the table of exp(-2^j/64).                                               *)
(***************************************************************************)
Unit == 32768
ExpTab == <<32260, 31760, 30783, 28918, 25520, 19875, 12055, 4435, 600, 11>>
RECURSIVE ExpFrom(_, _, _)
ExpFrom(k, j, acc) == IF k = 0 THEN acc ELSE IF j > Len(ExpTab) THEN 0 ELSE ExpFrom(k \div 2, j + 1, IF k % 2 = 1 THEN (acc * ExpTab[j]) \div Unit ELSE acc)
ExpNeg64(k) == ExpFrom(k, 1, Unit)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
(* the weight of a pair d dearer than the cheapest (cost least), temperature num/den *)
Weight(d, least, num, den, rel) ==
  IF num = 0 THEN (IF d = 0 THEN Unit ELSE 0)
  ELSE LET scale == IF rel /\ Abs(least) > 1 THEN Abs(least) ELSE 1 IN
       IF d \div scale > (16 * num) \div den THEN 0 ELSE ExpNeg64((d * den * 64) \div (num * scale))
=============================================================================
