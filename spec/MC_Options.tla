----------------------------- MODULE MC_Options -----------------------------
(* An einsum done in steps, each an einsum with the same options, has the   *)
(* type of the result, or is refused, as when it is done at once.           *)
(* Drop = TRUE: a broken variant whose steps with two operands (a matrix    *)
(* product, say) do not get the options.                                    *)
EXTENDS Options, SequencesExt
CONSTANTS MaxN, Drop
VARIABLES ops, live, dtype, rule, refused
vars == <<ops, live, dtype, rule, refused>>
Init == /\ \E n \in 1..MaxN : ops \in [1..n -> Types]
        /\ live = ops /\ dtype \in Types \cup {""} /\ rule \in {"no", "safe", "same_kind", "unsafe"} /\ refused = FALSE
Rest(S) == LET keep == SelectSeq([k \in 1..Len(live) |-> k], LAMBDA k : k \notin S) IN [k \in 1..Len(keep) |-> live[keep[k]]]
Step == /\ ~refused
        /\ \E S \in (SUBSET (1..Len(live))) \ {{}} :
             LET ts == { live[i] : i \in S }
                 d == IF Drop /\ Cardinality(S) = 2 THEN "" ELSE dtype
                 r == IF Drop /\ Cardinality(S) = 2 THEN "unsafe" ELSE rule
             IN IF Forbidden(ts, d, r) THEN refused' = TRUE /\ UNCHANGED live
                ELSE live' = Append(Rest(S), TypeOf(ts, d)) /\ UNCHANGED refused
        /\ UNCHANGED <<ops, dtype, rule>>
Next == Step
Spec == Init /\ [][Next]_vars
All == { ops[i] : i \in 1..Len(ops) }
(* a lone operand that is never touched is not a result yet *)
Touched == Len(ops) > 1
Agrees == /\ (refused => Forbidden(All, dtype, rule))
          /\ ((Len(live) = 1 /\ Touched /\ ~refused) => (~Forbidden(All, dtype, rule) /\ live[1] = TypeOf(All, dtype)))
ASSUME \A S \in (SUBSET Types) \ {{}} : Promote(S) \in Types /\ \A a \in S : Promote(S) \in SafeTo[a]
ASSUME \A a, b, c \in Types : Promote({Promote({a, b}), c}) = Promote({a, b, c})
=============================================================================
