------------------------------- MODULE T_Info -------------------------------
(* The report returned by contract_path, replayed against the path machine.  *)
(* All sizes and costs are BigNat numbers.                                   *)
EXTENDS Network, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, live, lists, cost, verdict
vars == <<c, l, live, lists, cost, verdict>>
K == Cases[c]
I == K.info

RECURSIVE BProdB(_, _)
BProdB(S, sz) == IF S = {} THEN <<1>> ELSE LET x == CHOOSE x \in S : TRUE IN BMul(BProdB(S \ {x}, sz), sz[x])
(* the size of label x under broadcasting *)
Dims(k, x) == UNION { { k.dims[i][j] : j \in { j \in 1..Len(k.terms[i]) : k.terms[i][j] = x } } : i \in 1..N(k) }
LSize(k, x) == LET D == Dims(k, x) \ {<<1>>} IN IF D = {} THEN <<1>> ELSE CHOOSE d \in D : TRUE
SizeFn(k) == [x \in AllLabels(k) |-> LSize(k, x)]

Flops(k, L, summed, nops) == LET f == BProdB(L, SizeFn(k))
                                 m == IF nops - 1 > 1 THEN nops - 1 ELSE 1 IN BSmall(f, IF summed THEN m + 1 ELSE m)
RECURSIVE SumLens(_, _)
SumLens(k, i) == IF i = 0 THEN 0 ELSE Cardinality(TermSet(k, i)) + SumLens(k, i - 1)
Naive(k) == Flops(k, AllLabels(k), SumLens(k, N(k)) > Cardinality(AllLabels(k)), N(k))

RECURSIVE BMaxSeq(_)
BMaxSeq(s) == IF s = <<>> THEN <<>> ELSE BMax(Head(s), BMaxSeq(Tail(s)))

(* the ratio p/q equals naive / max(opt, 1) to within 10^-12 *)
RatioOk(p, q, naive, opt) ==
  LET d == IF opt = <<>> THEN <<1>> ELSE opt IN
  BLe(BMul(BDiff(BMul(p, d), BMul(naive, q)), BPow10(12)), BMul(naive, q))

(* a printed number m * 10^(e-3), m with four digits, is v rounded *)
Shown(m, e, v) ==
  IF v = <<>> THEN m = 0
  ELSE IF e >= 3 THEN BLe(BSmall(BDiff(BMul(BFrom(m), BPow10(e - 3)), v), 2), BPow10(e - 3))
  ELSE BLe(BSmall(BDiff(BFrom(m), BMul(v, BPow10(3 - e))), 2), <<1>>)
(* printed ratio: m * 10^(e-3) ~ naive / max(opt,1) ; e may be negative     *)
ShownRatio(m, e, naive, opt) ==
  LET d == IF opt = <<>> THEN <<1>> ELSE opt
      a == IF e >= 3 THEN BMul(BMul(BFrom(m), BPow10(e - 3)), d) ELSE BMul(BFrom(m), d)
      b == IF e >= 3 THEN naive ELSE BMul(naive, BPow10(3 - e))
      u == IF e >= 3 THEN BMul(BPow10(e - 3), d) ELSE d
  IN IF naive = <<>> THEN m = 0 ELSE BLe(BSmall(BDiff(a, b), 200), BSmall(u, 101))

Global(k) ==
  LET i == k.info IN
  IF i.terms # k.terms \/ i.eqterms # k.terms THEN "input-subscripts"
  ELSE IF i.out # k.out \/ i.eqout # k.out THEN "output-subscript"
  ELSE IF Rng(i.indices) # AllLabels(k) \/ Len(i.indices) # Cardinality(AllLabels(k)) THEN "indices"
  ELSE IF { i.sd[j].x : j \in 1..Len(i.sd) } # AllLabels(k) THEN "size-dict-labels"
  ELSE IF \E j \in 1..Len(i.sd) : i.sd[j].s # LSize(k, i.sd[j].x) THEN "size-dict"
  ELSE IF i.shapes # [a \in 1..N(k) |-> [b \in 1..Len(k.terms[a]) |-> LSize(k, k.terms[a][b])]] THEN "shapes"
  ELSE IF i.path # k.path THEN "path"
  ELSE IF i.naive # Naive(k) THEN "naive-cost"
  ELSE IF Len(i.steps) # Len(k.path) \/ Len(i.scale) # Len(k.path) \/ Len(i.sizes) # Len(k.path) THEN "number-of-steps"
  ELSE IF WellFormed(k, k.path) # "ok" THEN "path-malformed"
  ELSE "ok"

Final(k, total) ==
  LET i == k.info IN
  IF i.opt # total THEN "optimised-cost"
  ELSE IF i.largest # BMaxSeq(i.sizes) THEN "largest-intermediate"
  ELSE IF ~RatioOk(i.sp, i.sq, i.naive, i.opt) THEN "speedup"
  ELSE IF ~k.hasprint THEN "ok"
  ELSE IF i.pterms # k.terms \/ i.pout # k.out THEN "printed-contraction"
  ELSE IF i.pnaivescale # Cardinality(AllLabels(k)) THEN "printed-naive-scaling"
  ELSE IF i.poptscale # (IF i.scale = <<>> THEN 0 ELSE CHOOSE m \in Rng(i.scale) : \A x \in Rng(i.scale) : x <= m) THEN "printed-optimised-scaling"
  ELSE IF ~Shown(i.pnaive[1], i.pnaive[2], i.naive) THEN "printed-naive-cost"
  ELSE IF ~Shown(i.popt[1], i.popt[2], i.opt) THEN "printed-optimised-cost"
  ELSE IF ~Shown(i.plargest[1], i.plargest[2], i.largest) THEN "printed-largest"
  ELSE IF Len(i.rows) # Len(i.steps) THEN "printed-rows"
  ELSE IF \E j \in 1..Len(i.rows) : LET r == i.rows[j]
                                        s == i.steps[j] IN
            \/ r.scale # i.scale[j]
            \/ r.lhs # s.lhs
            \/ r.rhs # s.rhs
            \/ r.hasrem # s.hasrem
            \/ (r.hasrem /\ (r.rem # s.rem \/ r.out # k.out)) THEN "printed-step"
  ELSE IF ~ShownRatio(i.pspeed[1], i.pspeed[2], i.naive, i.opt) THEN "printed-speedup"
  ELSE "ok"

Desc(pos) == SetToSortSeq(Rng(pos), LAMBDA a, b : a > b)
(* one step of the report against one step of the machine *)
JudgeStep(k, lst, lv, j) ==
  LET s     == k.info.steps[j]
      pos   == k.path[j]
      whole == Merged(lv, pos)
      last  == j = Len(k.path)
      inl   == UNION { Rng(lst[pos[i] + 1]) : i \in 1..Len(pos) }
      others == UNION { Rng(lst[i]) : i \in { i \in 1..Len(lst) : (i - 1) \notin Rng(pos) } }
      kept  == inl \cap (Rng(k.out) \cup others)
      summed == inl \ kept
      rest  == Append(DropAt(lst, pos), s.rhs)
  IN IF Rng(s.inds) # Rng(pos) \/ Len(s.inds) # Len(pos) THEN "step-positions"
     ELSE IF Rng(s.rm) # summed \/ Len(s.rm) # Cardinality(summed) THEN "step-removed-labels"
     ELSE IF s.lhs # [i \in 1..Len(s.inds) |-> lst[s.inds[i] + 1]] THEN "step-subscripts-in"
     ELSE IF last /\ s.rhs # k.out THEN "step-subscripts-out"
     ELSE IF Rng(s.rhs) # kept \/ Len(s.rhs) # Cardinality(kept) THEN "step-subscripts-out"
     ELSE IF s.hasrem /\ s.rem # rest THEN "step-remaining"
     ELSE IF ~s.hasrem /\ Len(rest) <= 20 THEN "step-remaining-missing"
     ELSE IF k.info.scale[j] # Cardinality(inl) THEN "step-scaling"
     ELSE IF k.info.sizes[j] # BProdB(kept, SizeFn(k)) THEN "step-size"
     ELSE "ok"

Init == /\ c \in 1..Len(Cases) /\ l = 0 /\ cost = <<>> /\ live = [i \in 1..N(K) |-> {i}] /\ lists = K.terms
        /\ verdict = "start"
Start == /\ verdict = "start" /\ UNCHANGED <<c, l, live, lists, cost>>
         /\ verdict' = IF K.e # "" THEN "raised-" \o K.e ELSE LET g == Global(K) IN IF g = "ok" THEN "run" ELSE g
Step == /\ verdict = "run" /\ l < Len(K.path)
        /\ LET pos == K.path[l + 1]
               v   == JudgeStep(K, lists, live, l + 1) IN
           IF v # "ok" THEN verdict' = v /\ UNCHANGED <<c, l, live, lists, cost>>
           ELSE /\ lists' = Append(DropAt(lists, pos), I.steps[l + 1].rhs)
                /\ live' = StepLive(live, pos)
                /\ LET inl == UNION { Rng(lists[pos[i] + 1]) : i \in 1..Len(pos) }
                   IN cost' = BAdd(cost, Flops(K, inl, I.steps[l + 1].rm # <<>>, Len(pos)))
                /\ l' = l + 1 /\ UNCHANGED <<c, verdict>>
Finish == /\ verdict = "run" /\ l = Len(K.path)
          /\ verdict' = Final(K, cost) /\ UNCHANGED <<c, l, live, lists, cost>>
Next == Start \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
(* the labels of the operand list are those the path machine says survive *)
Coupled == (verdict = "run" /\ l > 0) => \A i \in 1..Len(live) : Rng(lists[i]) = IF live[i] = 1..N(K) THEN Rng(K.out) ELSE
                     IF Cardinality(live[i]) > 1 THEN Legs(K, live[i]) ELSE Rng(lists[i])
Report == verdict \in {"start", "run", "ok"} \/ PrintT(<<"VERDICT", c, verdict>>)
=============================================================================
