----------------------------- MODULE T_Symbols -----------------------------
(*  k = "sym"     get_symbol for a range of indices                        *)
(*  k = "unused"  gen_unused_symbols                                       *)
(*  k = "ren"     alpha_canonicalize, convert_to_valid_einsum_chars and    *)
(*                has_valid_einsum_chars_only of an equation and of        *)
(*                renamings of it                                          *)
(*  k = "out"     find_output_str                                          *)
EXTENDS Symbols, TLC, Json, IOUtils, FiniteSetsExt, SequencesExt
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>
Set(s) == { s[i] : i \in 1..Len(s) }
JudgeSym(k) ==
  IF Cardinality(Set(k.syms)) # Len(k.syms) THEN "two-indices-one-symbol"
  ELSE IF k.from = 0 /\ \E i \in 0..51 : k.syms[i + 1] # Letter(i) THEN "letters-not-first"
  ELSE IF Set(k.syms) \cap (Punctuation \cup {32}) # {} THEN "punctuation-as-symbol"
  ELSE "ok"
JudgeUnused(k) ==
  IF Len(k.got) # k.n THEN "wrong-number"
  ELSE IF Cardinality(Set(k.got)) # k.n THEN "unused-symbol-repeated"
  ELSE IF Set(k.got) \cap (Set(k.used) \cup Punctuation \cup {32}) # {} THEN "symbol-not-unused" ELSE "ok"
JudgeRen(k) ==
  LET es == k.eqs IN
  IF \E i \in 1..Len(es) : ~Renaming(es[i].e, es[1].e) THEN "inconsistent-case"
  ELSE IF \E i \in 1..Len(es) : ~Renaming(es[i].e, es[i].canon) THEN "canonical-form-not-a-renaming"
  ELSE IF \E i \in 1..Len(es) : es[i].canon # es[1].canon THEN "renamings-with-different-canonical-forms"
  ELSE IF Cardinality(LabelsIn(es[1].e)) <= 52 /\ es[1].canon # Canonical(es[1].e) THEN "canonical-names-not-the-first-symbols"
  ELSE IF \E i \in 1..Len(es) : ~Renaming(es[i].e, es[i].valid) THEN "conversion-not-a-renaming"
  ELSE IF Cardinality(LabelsIn(es[1].e)) <= 52 /\ \E i \in 1..Len(es) : ~(LabelsIn(es[i].valid) \subseteq Letters) THEN "conversion-not-to-letters"
  ELSE IF \E i \in 1..Len(es) : es[i].isvalid # (LabelsIn(es[i].e) \subseteq Letters) THEN "wrong-validity"
  ELSE "ok"
Occurs(s, x) == Cardinality({ i \in 1..Len(s) : s[i] = x })
JudgeOut(k) ==
  IF k.got = SetToSortSeq({ x \in LabelsIn(k.e) : Occurs(k.e, x) = 1 }, LAMBDA a, b : a < b) THEN "ok" ELSE "wrong-implicit-output"
Judge(k) == CASE k.k = "sym" -> JudgeSym(k) [] k.k = "unused" -> JudgeUnused(k) [] k.k = "ren" -> JudgeRen(k) [] k.k = "out" -> JudgeOut(k)
              [] k.k = "error" -> "raised-" \o k.e
Init == c \in 1..Len(Cases) /\ verdict = "?"
Next == verdict = "?" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Report == verdict \in {"?", "ok"} \/ PrintT(<<"VERDICT", c, verdict>>)
=============================================================================
