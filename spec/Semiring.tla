------------------------------ MODULE Semiring ------------------------------
(***************************************************************************)
(* The algebras in which contractions are evaluated.  An algebra is named  *)
(* by a string; its elements are represented as follows.                   *)
(*   "mod"    integers modulo P (every integer, fixed-point and rational   *)
(*            computation of the code is observed modulo P, which keeps    *)
(*            TLC's 32-bit integers exact)                                 *)
(*   "gauss"  pairs <<re, im>> of residues: Gaussian integers              *)
(*   "maxplus" integers with max as addition and + as multiplication       *)
(*   "bool"   0/1 with or / and                                            *)
(*   "gcdlcm" positive integers with gcd as addition, lcm as product       *)
(*   "fuzzy"  integers with max as addition, min as product                *)
(*   "sets"   bit sets (as 0/1 sequences): symmetric difference and        *)
(*            intersection                                                 *)
(* P is prime and (P-1)^2 < 2^31.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

P == 46337

RECURSIVE GcdR(_, _)
GcdR(a, b) == IF b = 0 THEN a ELSE GcdR(b, a % b)

SAdd(r, x, y) ==
  CASE r = "mod"     -> (x + y) % P
    [] r = "gauss"   -> << (x[1] + y[1]) % P, (x[2] + y[2]) % P >>
    [] r = "maxplus" -> IF x > y THEN x ELSE y
    [] r = "bool"    -> IF x = 1 \/ y = 1 THEN 1 ELSE 0
    [] r = "gcdlcm"  -> GcdR(x, y)
    [] r = "fuzzy"   -> IF x > y THEN x ELSE y
    [] r = "sets"    -> [i \in 1..Len(x) |-> (x[i] + y[i]) % 2]

SMul(r, x, y) ==
  CASE r = "mod"     -> (x * y) % P
    [] r = "gauss"   -> << (((x[1] * y[1]) % P) + P - ((x[2] * y[2]) % P)) % P,
                           (((x[1] * y[2]) % P) + ((x[2] * y[1]) % P)) % P >>
    [] r = "maxplus" -> x + y
    [] r = "bool"    -> x * y
    [] r = "gcdlcm"  -> (x \div GcdR(x, y)) * y
    [] r = "fuzzy"   -> IF x < y THEN x ELSE y
    [] r = "sets"    -> [i \in 1..Len(x) |-> x[i] * y[i]]

(* the value of an empty sum: only used for algebras that have one *)
SZero(r) == CASE r = "gauss" -> <<0, 0>>
              [] r = "maxplus" -> -1000000
              [] OTHER -> 0
=============================================================================
