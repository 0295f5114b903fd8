---------------------------- MODULE MC_Semiring ----------------------------
(* The algebras are commutative semirings, which is what makes the value   *)
(* of a contraction independent of the order of its steps.                 *)
EXTENDS Semiring, TLC
CONSTANT Names
Elements(r) == CASE r = "mod" -> {0, 1, 2, 17, P - 1, P - 2, 40000}
                 [] r = "gauss" -> {0, 1, 3, P - 1, 40000} \X {0, 1, P - 2, 39999}
                 [] r = "maxplus" -> -3..4
                 [] r = "bool" -> {0, 1}
                 [] r = "gcdlcm" -> {1, 2, 3, 4, 6, 10, 15}
                 [] r = "fuzzy" -> -2..3
                 [] r = "sets" -> [1..3 -> {0, 1}]
VARIABLES r, x, y, z
vars == <<r, x, y, z>>
Init == r \in Names /\ x \in Elements(r) /\ y \in Elements(r) /\ z \in Elements(r)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
A(a, b) == SAdd(r, a, b)
M(a, b) == SMul(r, a, b)
Laws == /\ A(x, y) = A(y, x) /\ M(x, y) = M(y, x)
        /\ A(A(x, y), z) = A(x, A(y, z))
        /\ M(M(x, y), z) = M(x, M(y, z))
        /\ M(x, A(y, z)) = A(M(x, y), M(x, z))
=============================================================================
