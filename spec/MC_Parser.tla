----------------------------- MODULE MC_Parser -----------------------------
(* All strings of up to MaxTok tokens; each is emitted for replay on the   *)
(* code.  The invariants are the facts about the language that users rely  *)
(* on.                                                                     *)
EXTENDS Parser, TLC, Json
CONSTANTS MaxTok, MaxRank, Emit
Toks == { <<97>>, <<98>>, <<COMMA>>, <<DASH, GT>>, <<DOT, DOT, DOT>>, <<SPACE>>, <<DASH>>, <<DOT>> }
VARIABLES str, n
vars == <<str, n>>
Init == str = <<>> /\ n = 0
Next == n < MaxTok /\ n' = n + 1 /\ \E t \in Toks : str' = str \o t
Spec == Init /\ [][Next]_vars

Terms == Len(SplitAt(InPart(Strip(str)), COMMA))
Cube(r) == [i \in 1..r |-> 2]
ShapeLists == LET m == IF ArrowOk(Strip(str)) THEN Terms ELSE 1 IN
              { [i \in 1..m |-> Cube(f[i])] : f \in [1..m -> 0..MaxRank] }
(* writing the implied output explicitly changes nothing *)
OutStr(o) == LET e == SelectSeq(o, LAMBDA x : x < 0) IN
             (IF e = <<>> THEN <<>> ELSE <<DOT, DOT, DOT>>) \o SelectSeq(o, LAMBDA x : x > 0)
ImplicitIsExplicit ==
  \A sh \in ShapeLists :
    LET p == Parse(str, sh) IN
    (p.st # "invalid" /\ ~HasArrow(str)) => Parse(str \o <<DASH, GT>> \o OutStr(p.out), sh) = p
(* spaces are insignificant *)
SpaceFree == \A sh \in ShapeLists : Parse(Strip(str), sh) = Parse(str, sh)
(* a meaning is complete: every axis is labelled, outputs are distinct labels of inputs *)
Complete ==
  \A sh \in ShapeLists :
    LET p == Parse(str, sh) IN
    p.st # "invalid" =>
      /\ Len(p.ins) = Len(sh)
      /\ \A i \in 1..Len(sh) : Len(p.ins[i]) = Len(sh[i])
      /\ \A i, j \in 1..Len(p.out) : p.out[i] = p.out[j] => i = j
      /\ Elems(p.out) \subseteq AllLabels(p.ins)
(* an order preserving renaming of the labels commutes with parsing *)
Ren(x) == IF x \in {97, 98} THEN 2 * x + 1 ELSE x
RenSeq(s) == [i \in 1..Len(s) |-> Ren(s[i])]
Renames ==
  \A sh \in ShapeLists :
    LET p == Parse(str, sh) q == Parse(RenSeq(str), sh) IN
    /\ q.st = p.st
    /\ q.out = RenSeq(p.out)
    /\ q.ins = [i \in 1..Len(p.ins) |-> RenSeq(p.ins[i])]
EmitAll == Emit => PrintT(<<"OUT", ToJson(str)>>)
=============================================================================
