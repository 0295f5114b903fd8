------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The input language: what a subscripts string denotes for operands of    *)
(* given shapes, and whether the request is well formed.                   *)
(*                                                                         *)
(* A string is a sequence of character codes; every character other than   *)
(* , - > . and space is a label, and labels are ordered by code.  The axes *)
(* that an ellipsis stands for are aligned at the right: the j-th of them  *)
(* counted from the last is written as the label -j.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

COMMA == 44   DASH == 45   DOT == 46   GT == 62   SPACE == 32
Punct == {COMMA, DASH, DOT, GT, SPACE}

Strip(s) == SelectSeq(s, LAMBDA x : x # SPACE)
Pos(s, x) == { i \in 1..Len(s) : s[i] = x }
CountIn(s, x) == Cardinality(Pos(s, x))
Elems(s) == { s[i] : i \in 1..Len(s) }
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

HasArrow(s) == Pos(s, DASH) # {} \/ Pos(s, GT) # {}
ArrowOk(s) == ~HasArrow(s)
              \/ (/\ Cardinality(Pos(s, DASH)) = 1
                  /\ Cardinality(Pos(s, GT)) = 1
                  /\ (CHOOSE i \in Pos(s, GT) : TRUE) = (CHOOSE i \in Pos(s, DASH) : TRUE) + 1)
ArrowAt(s) == CHOOSE i \in Pos(s, DASH) : TRUE
InPart(s)  == IF HasArrow(s) THEN SubSeq(s, 1, ArrowAt(s) - 1) ELSE s
OutPart(s) == SubSeq(s, ArrowAt(s) + 2, Len(s))

RECURSIVE SplitAt(_, _)
SplitAt(s, x) ==
  IF Pos(s, x) = {} THEN <<s>>
  ELSE LET i == MinOf(Pos(s, x)) IN <<SubSeq(s, 1, i - 1)>> \o SplitAt(SubSeq(s, i + 1, Len(s)), x)

(* a term has no dots, or exactly three that are adjacent *)
HasEll(t) == Pos(t, DOT) # {}
EllOk(t) == ~HasEll(t) \/ (Cardinality(Pos(t, DOT)) = 3 /\ MaxOf(Pos(t, DOT)) - MinOf(Pos(t, DOT)) = 2)
Before(t) == IF HasEll(t) THEN SubSeq(t, 1, MinOf(Pos(t, DOT)) - 1) ELSE t
After(t)  == IF HasEll(t) THEN SubSeq(t, MaxOf(Pos(t, DOT)) + 1, Len(t)) ELSE <<>>
Named(t)  == Before(t) \o After(t)
EllAxes(k) == [j \in 1..k |-> j - 1 - k]
EllCount(t, shape) == IF HasEll(t) THEN Len(shape) - Len(Named(t)) ELSE 0
Expand(t, k) == Before(t) \o EllAxes(k) \o After(t)

(***************************************************************************)
(* The meaning of string `str' for operands of the given shapes:           *)
(*   st   "valid", "invalid", or "any" where nothing is specified          *)
(*   why  the reason it is invalid                                         *)
(*   ins  the axis labels of each operand                                  *)
(*   out  the labels of the result                                         *)
(***************************************************************************)
Bad(why) == [st |-> "invalid", why |-> why, ins |-> <<>>, out |-> <<>>]

DimsAt(ins, shapes, x) == UNION { { shapes[i][j] : j \in Pos(ins[i], x) } : i \in 1..Len(ins) }
AllLabels(ins) == UNION { Elems(ins[i]) : i \in 1..Len(ins) }
Clash(ins, shapes) == { x \in AllLabels(ins) : Cardinality(DimsAt(ins, shapes, x) \ {1}) > 1 }
(* one operand carries a label twice, with different sizes one of which is 1 *)
OddDiagonal(ins, shapes) ==
  \E i \in 1..Len(ins) : \E a, b \in 1..Len(ins[i]) : ins[i][a] = ins[i][b] /\ shapes[i][a] # shapes[i][b]

OnceLabels(terms) ==
  LET all == FlattenSeq([i \in 1..Len(terms) |-> Named(terms[i])]) IN
  { x \in Elems(all) : CountIn(all, x) = 1 }
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

Parse(str, shapes) ==
  LET s == Strip(str) IN
  IF ~ArrowOk(s) THEN Bad("arrow")
  ELSE
  LET terms == SplitAt(InPart(s), COMMA)
      n == Len(terms)
      explicit == HasArrow(s)
      o == IF explicit THEN OutPart(s) ELSE <<>> IN
  IF \E i \in 1..n : ~EllOk(terms[i]) THEN Bad("ellipsis")
  ELSE IF explicit /\ ~EllOk(o) THEN Bad("output-ellipsis")
  ELSE IF COMMA \in Elems(o) THEN Bad("output-comma")
  ELSE IF n # Len(shapes) THEN Bad("operands")
  ELSE IF \E i \in 1..n : (IF HasEll(terms[i]) THEN Len(shapes[i]) < Len(Named(terms[i])) ELSE Len(shapes[i]) # Len(terms[i])) THEN Bad("rank")
  ELSE
  LET k == [i \in 1..n |-> EllCount(terms[i], shapes[i])]
      longest == MaxOf({0} \cup { k[i] : i \in 1..n })
      ins == [i \in 1..n |-> Expand(terms[i], k[i])]
      out == IF explicit THEN Expand(o, IF HasEll(o) THEN longest ELSE 0)
             ELSE EllAxes(longest) \o Sorted(OnceLabels(terms))
  IN
  IF \E x \in Elems(Named(o)) : CountIn(Named(o), x) > 1 THEN Bad("output-repeated")
  ELSE IF \E x \in Elems(out) : x \notin AllLabels(ins) THEN Bad("output-unknown")
  ELSE IF Clash(ins, shapes) # {} THEN Bad("size")
  ELSE [st |-> IF OddDiagonal(ins, shapes) \/ (explicit /\ longest > 0 /\ ~HasEll(o)) THEN "any" ELSE "valid",
        why |-> "", ins |-> ins, out |-> out]
=============================================================================
