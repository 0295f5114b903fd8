------------------------------ MODULE PathForms ------------------------------
(* Conversion between linear (recycled positions) and single-assignment paths *)
EXTENDS Network
NumInputs(path) == 1 + (LET f[i \in 0..Len(path)] == IF i = 0 THEN 0 ELSE f[i - 1] + Len(path[i]) - 1 IN f[Len(path)])
RECURSIVE L2S(_, _, _)
L2S(ids, next, path) ==
  IF path = <<>> THEN <<>>
  ELSE <<[i \in 1..Len(Head(path)) |-> ids[Head(path)[i] + 1]]>>
       \o L2S(Append(DropAt(ids, Head(path)), next), next + 1, Tail(path))
LinToSsa(path) == LET n == NumInputs(path) IN L2S([i \in 1..n |-> i - 1], n, path)
PosOf(ids, x) == (CHOOSE i \in 1..Len(ids) : ids[i] = x) - 1
RECURSIVE S2L(_, _, _)
S2L(ids, next, path) ==
  IF path = <<>> THEN <<>>
  ELSE LET pos == [i \in 1..Len(Head(path)) |-> PosOf(ids, Head(path)[i])] IN
       <<pos>> \o S2L(Append(DropAt(ids, pos), next), next + 1, Tail(path))
SsaToLin(path) == LET n == NumInputs(path) IN S2L([i \in 1..n |-> i - 1], n, path)
SameSteps(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Len(p[i]) = Len(q[i]) /\ Rng(p[i]) = Rng(q[i])
RECURSIVE SsaWF(_, _, _)
SsaWF(avail, next, path) ==
  IF path = <<>> THEN Cardinality(avail) = 1
  ELSE /\ Head(path) # <<>> /\ Cardinality(Rng(Head(path))) = Len(Head(path)) /\ Rng(Head(path)) \subseteq avail
       /\ SsaWF((avail \ Rng(Head(path))) \cup {next}, next + 1, Tail(path))
SsaWellFormed(path, n) == SsaWF(0..n - 1, n, path)
==============================================================================
