------------------------------- MODULE Branch -------------------------------
(***************************************************************************)
(* Branch and bound.  A position of the search is a set B of blocks, each   *)
(* a set of original operands, with the FLOPs spent and the largest         *)
(* intermediate so far.  k has terms, out, sizes (small numbers), obj       *)
(* ("flops" or "size"), nb (branches per step, 0: all), cut (cutoff         *)
(* factor), f (cost function).                                              *)
(*                                                                          *)
(* Sure(k, ...) are the sequences of contractions that the search must not  *)
(* miss: pairs that share a label (any pair if none does), strictly among   *)
(* the nb cheapest, never more than cut times as expensive as the cheapest  *)
(* way to make as many steps.  MC_Branch runs the search itself and checks  *)
(* that its result is no worse than any of them; T_Branch judges the real   *)
(* one.                                                                     *)
(***************************************************************************)
EXTENDS Network, FiniteSetsExt

ISize(k, S) == FoldSet(LAMBDA x, a : a * k.sizes[x], 1, S)
IFlops(k, A, C) == LET s == ISize(k, Legs(k, A) \cup Legs(k, C)) IN
                   IF (Legs(k, A) \cap Legs(k, C)) \subseteq Legs(k, A \cup C) THEN s ELSE 2 * s
ISize12(k, A, C) == ISize(k, Legs(k, A \cup C))
Pairs(B) == kSubset(2, B)
One(p) == CHOOSE A \in p : TRUE
Two(p) == CHOOSE A \in p : A # One(p)
Conn(k, p) == Legs(k, One(p)) \cap Legs(k, Two(p)) # {}
Cands(k, B) == LET C == { p \in Pairs(B) : Conn(k, p) } IN IF C = {} THEN Pairs(B) ELSE C
CostOf(f, s12, s1, s2) ==
  CASE f.k = "linear" -> f.a * s12 - f.b * (s1 + s2)
    [] f.k = "result" -> s12
    [] f.k = "negative" -> 0 - s12
PCost(k, p) == CostOf(k.f, ISize12(k, One(p), Two(p)), ISize(k, Legs(k, One(p))), ISize(k, Legs(k, Two(p))))
After(B, p) == (B \ p) \cup {UNION p}
Max2(a, b) == IF a > b THEN a ELSE b
PFlops(k, p) == IFlops(k, One(p), Two(p))
PSize(k, p) == ISize12(k, One(p), Two(p))

(* lexicographic *)
Better(k, f, s, g, t) == IF k.obj = "flops" THEN f < g \/ (f = g /\ s < t) ELSE s < t \/ (s = t /\ f < g)

Blocks0(k) == { {i} : i \in 1..N(k) }
(* cheapest way to reach each set of blocks: a set of [B, f] *)
MinLevel(k, F) ==
  LET X == UNION { { [B |-> After(x.B, p), f |-> x.f + PFlops(k, p)] : p \in Pairs(x.B) } : x \in F }
  IN { x \in X : \A y \in X : y.B = x.B => x.f <= y.f }
MinFlops(F) == Min({ x.f : x \in F })
(* candidates of B strictly among the nb cheapest *)
SureCands(k, B) ==
  LET C == { [p |-> p, c |-> PCost(k, p)] : p \in Cands(k, B) } IN
  IF k.nb = 0 THEN Cands(k, B)
  ELSE { x.p : x \in { x \in C : Cardinality({ y \in C : y.p # x.p /\ y.c <= x.c }) < k.nb } }
(* sure positions after one more step, m being the FLOPs of the cheapest way there *)
SureLevel(k, P, m) ==
  { y \in UNION { { [B |-> After(x.B, p), f |-> x.f + PFlops(k, p), s |-> Max2(x.s, PSize(k, p))] : p \in SureCands(k, x.B) } : x \in P } :
      y.f <= k.cut * m }
=============================================================================
