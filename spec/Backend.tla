------------------------------ MODULE Backend ------------------------------
(***************************************************************************)
(* Which library performs a contraction, and what it hands back.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Converting == {"torch", "tensorflow", "jax", "cupy", "theano"}

(* funcs: library -> set of functions it provides *)
Chosen(funcs, first, arg) ==
  IF arg \notin {"auto", "None"} THEN arg
  ELSE IF "tensordot" \in funcs[first] THEN first ELSE "numpy"

(* an expression converts NumPy arrays to a converting library and back *)
Converts(back, given) == back \in Converting /\ \A i \in 1..Len(given) : given[i] = "numpy"
ResultLib(back, given) == IF Converts(back, given) THEN "numpy" ELSE back
=============================================================================
