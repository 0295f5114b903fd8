---------------------------- MODULE T_RandGreedy ----------------------------
(* Judges trials of RandomGreedy.                                           *)
(* k = "trial": one trial's path (linear), its settings (plain: the first   *)
(*   trial, or one branch only, follows the rules of Greedy; K.greedy is    *)
(*   then what optimize='greedy' finds with the same cost function).        *)
(* k = "freq": how often each pair came first in K.n trials.                *)
EXTENDS RandGreedy, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, s, g, verdict
vars == <<c, l, s, g, verdict>>
K == Cases[c]
O == Never(K.terms, K.out)

(* multiplications and additions of a path *)
RECURSIVE Work(_, _, _)
Work(live, path, out) ==
  IF path = <<>> THEN 0
  ELSE LET i == path[1][1] + 1 j == path[1][2] + 1
           u == live[i] \cup live[j]
           rest == Drop2(live, i, j)
           r == { d \in u : d \in out \/ \E k \in 1..Len(rest) : d \in rest[k] }
       IN SizeOf(K.sizes, u) * (IF r # u THEN 2 ELSE 1) + Work(Append(rest, r), Tail(path), out)
WorkOf(path) == Work([i \in 1..Len(K.terms) |-> Lbl(K.terms[i])], path, Lbl(K.out))

Live0 == [i \in 1..Len(K.terms) |-> Lbl(K.terms[i])]
FreqVerdict ==
  LET P == Pairs(Live0, O)
      cost(p) == CostP(K.f, K.sizes, Live0, O, p)
      least == Min({ cost(p) : p \in P })
      cheaper(p) == Cardinality({ q \in P : cost(q) < cost(p) })
      in == { p \in P : cheaper(p) < K.nbranch }
      clear == Cardinality(in) <= K.nbranch
      w(p) == Weight(cost(p) - least, least, K.num, K.den, K.rel)
      W == FoldSet(LAMBDA p, a : a + w(p), 0, in)
      count(p) == LET hit == { i \in 1..Len(K.firsts) : {Live0[K.firsts[i][1] + 1], Live0[K.firsts[i][2] + 1]} = p } IN
                  FoldSet(LAMBDA i, a : a + K.firsts[i][3], 0, hit)
      seen == { p \in P : count(p) > 0 }
  IN IF ~(seen \subseteq in) THEN "choice-beyond-the-branches"
     ELSE IF Cardinality(seen) > K.nbranch THEN "more-choices-than-branches"
     ELSE IF clear /\ \E p \in in : Abs(count(p) * W - K.n * w(p)) > (K.n \div 11) * W THEN "frequencies-do-not-follow-the-temperature"
     ELSE "ok"

Init == /\ c \in 1..Len(Cases) /\ l = 0 /\ s = RStart(K.terms) /\ g = StartState(K.terms)
        /\ verdict = IF K.e # "" THEN "raised-" \o K.e
                     ELSE IF K.k = "freq" THEN FreqVerdict
                     ELSE IF K.first /\ WorkOf(K.path) # WorkOf(K.greedy) THEN "first-trial-is-not-the-greedy-path" ELSE "run"
Blur == IF K.plain THEN g.phase = "blur" ELSE s.phase = "blur"
N == IF K.plain THEN Len(g.live) ELSE Len(s.live)
Step == /\ verdict = "run" /\ l < Len(K.path) /\ UNCHANGED c
        /\ LET p == K.path[l + 1] IN
           IF Len(p) # 2 \/ p[1] = p[2] \/ p[1] < 0 \/ p[2] < 0 \/ p[1] >= N \/ p[2] >= N THEN verdict' = "bad-step" /\ UNCHANGED <<l, s, g>>
           ELSE LET i == p[1] + 1 j == p[2] + 1
                    v == IF Blur THEN "ok" ELSE IF K.plain THEN Verdict(K.f, K.sizes, O, g, i, j) ELSE RVerdict(K.f, K.sizes, O, s, K.nbranch, K.zero, i, j) IN
                /\ l' = l + 1
                /\ verdict' = IF v = "ok" THEN "run" ELSE v
                /\ IF K.plain
                   THEN /\ UNCHANGED s
                        /\ g' = IF Blur THEN [g EXCEPT !.live = Append(Drop2(g.live, i, j), {})] ELSE IF v # "ok" THEN g ELSE After(K.f, K.sizes, O, g, i, j)
                   ELSE /\ UNCHANGED g
                        /\ s' = IF Blur THEN [s EXCEPT !.live = Append(Drop2(s.live, i, j), {})] ELSE IF v # "ok" THEN s ELSE RAfter(K.f, K.sizes, O, s, i, j)
Finish == verdict = "run" /\ l = Len(K.path) /\ UNCHANGED <<c, l, s, g>> /\ verdict' = IF N = 1 THEN "ok" ELSE "operands-left-over"
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Report == verdict \in {"run", "ok"} \/ PrintT(<<"VERDICT", c, verdict, l>>)
=============================================================================
