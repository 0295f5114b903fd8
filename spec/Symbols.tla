------------------------------ MODULE Symbols ------------------------------
(***************************************************************************)
(* Label characters and renaming.  Equations are sequences of character    *)
(* codes; punctuation is , - > . and everything else is a label.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Punctuation == {44, 45, 62, 46}
Letters == (97..122) \cup (65..90)
(* the documented order of the first symbols *)
Letter(i) == IF i < 26 THEN 97 + i ELSE 65 + i - 26
IsLabel(x) == x \notin Punctuation
LabelsIn(e) == { e[i] : i \in { j \in 1..Len(e) : IsLabel(e[j]) } }
FirstAt(e, x) == CHOOSE i \in 1..Len(e) : e[i] = x /\ \A j \in 1..(i - 1) : e[j] # x
(* f is a renaming of e: the same punctuation, labels replaced one to one *)
Shape(e) == [i \in 1..Len(e) |-> IF IsLabel(e[i]) THEN FirstAt(e, e[i]) ELSE -e[i]]
Renaming(e, f) == Shape(e) = Shape(f)
(* the labels in the order of their first occurrence are the first symbols *)
RECURSIVE FirstOrder(_, _, _)
FirstOrder(e, i, acc) ==
  IF i > Len(e) THEN acc
  ELSE IF IsLabel(e[i]) /\ \A j \in 1..Len(acc) : acc[j] # e[i] THEN FirstOrder(e, i + 1, Append(acc, e[i]))
  ELSE FirstOrder(e, i + 1, acc)
Canonical(e) == LET o == FirstOrder(e, 1, <<>>) IN
                [i \in 1..Len(e) |-> IF IsLabel(e[i]) THEN Letter((CHOOSE k \in 1..Len(o) : o[k] = e[i]) - 1) ELSE e[i]]
=============================================================================
