------------------------------ MODULE Options ------------------------------
(***************************************************************************)
(* The options dtype and casting of an einsum over numbers of types i1, i4, *)
(* i8 (integers), f4, f8 (floating point) and c8, c16 (complex).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Types == {"i1", "i4", "i8", "f4", "f8", "c8", "c16"}
SafeTo == [i1 |-> Types, i4 |-> {"i4", "i8", "f8", "c16"}, i8 |-> {"i8", "f8", "c16"}, f4 |-> {"f4", "f8", "c8", "c16"}, f8 |-> {"f8", "c16"}, c8 |-> {"c8", "c16"}, c16 |-> {"c16"}]
Kind(t) == IF t \in {"i1", "i4", "i8"} THEN 1 ELSE IF t \in {"f4", "f8"} THEN 2 ELSE 3
CanCast(a, b, rule) ==
  CASE rule \in {"no", "equiv"} -> a = b
    [] rule = "safe" -> b \in SafeTo[a]
    [] rule = "same_kind" -> Kind(a) <= Kind(b)
    [] rule = "unsafe" -> TRUE
(* the least type that all of S can safely be cast to *)
Promote(S) == LET U == { t \in Types : \A a \in S : t \in SafeTo[a] } IN CHOOSE t \in U : \A u \in U : u \in SafeTo[t]
TypeOf(S, dtype) == IF dtype = "" THEN Promote(S) ELSE dtype
Forbidden(S, dtype, rule) == \E a \in S : ~CanCast(a, TypeOf(S, dtype), rule)
=============================================================================
