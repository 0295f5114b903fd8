----------------------------- MODULE MC_Symbols -----------------------------
(* Two equations have the same canonical form exactly when one is a        *)
(* renaming of the other (all pairs of equations over a small alphabet).   *)
EXTENDS Symbols, TLC, Json
CONSTANTS MaxLen, Emit
Alphabet == {97, 98, 966, 44, 46}
VARIABLES e, f
vars == <<e, f>>
Init == e = <<>> /\ f = <<>>
Next == \/ Len(e) < MaxLen /\ \E x, y \in Alphabet : e' = Append(e, x) /\ f' = Append(f, y)
Spec == Init /\ [][Next]_vars
Theorem1 == (Canonical(e) = Canonical(f)) <=> Renaming(e, f)
Theorem2 == Renaming(e, Canonical(e)) /\ Canonical(Canonical(e)) = Canonical(e)
EmitAll == (Emit /\ e = f) => PrintT(<<"OUT", ToJson(e)>>)
=============================================================================
