------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any magnitude: little-endian sequences of limbs in    *)
(* base 10^4, without leading (trailing in the sequence) zeros.  TLC's      *)
(* integers have 32 bits; costs of contractions do not.                     *)
EXTENDS Integers, Sequences
Base == 10000

RECURSIVE BTrim(_)
BTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN BTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE BFrom(_)
BFrom(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o BFrom(n \div Base)

BAt(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE BAddR(_, _, _, _)
BAddR(a, b, i, carry) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET s == BAt(a, i) + BAt(b, i) + carry IN <<s % Base>> \o BAddR(a, b, i + 1, s \div Base)
BAdd(a, b) == BAddR(a, b, 1, 0)

RECURSIVE BSmallR(_, _, _, _)
BSmallR(a, k, i, carry) ==
  IF i > Len(a) THEN BFrom(carry)
  ELSE LET s == a[i] * k + carry IN <<s % Base>> \o BSmallR(a, k, i + 1, s \div Base)
(* multiplication by an integer 0 <= k < 2*10^5 *)
BSmall(a, k) == IF k = 0 THEN <<>> ELSE BSmallR(a, k, 1, 0)

RECURSIVE BMul(_, _)
BMul(a, b) == IF b = <<>> \/ a = <<>> THEN <<>>
              ELSE BAdd(BSmall(a, Head(b)), LET r == BMul(a, Tail(b)) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)

RECURSIVE BLtR(_, _, _)
BLtR(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BLtR(a, b, i - 1)
BLt(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE BLtR(a, b, Len(a))
BLe(a, b) == a = b \/ BLt(a, b)
BMax(a, b) == IF BLt(a, b) THEN b ELSE a

RECURSIVE BSubR(_, _, _, _)
BSubR(a, b, i, borrow) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - BAt(b, i) - borrow IN
       <<IF s < 0 THEN s + Base ELSE s>> \o BSubR(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
BSub(a, b) == BTrim(BSubR(a, b, 1, 0))          \* for b <= a
BDiff(a, b) == IF BLt(a, b) THEN BSub(b, a) ELSE BSub(a, b)

RECURSIVE BPow10(_)
BPow10(n) == IF n >= 4 THEN <<0>> \o BPow10(n - 4) ELSE <<10 ^ n>>

(* product of the sizes (integers below 2^31) of a set of labels *)
BMulInt(a, k) == IF k < 200000 THEN BSmall(a, k) ELSE BMul(a, BFrom(k))
RECURSIVE BProdSet(_, _)
BProdSet(S, size) == IF S = {} THEN <<1>>
                     ELSE LET x == CHOOSE x \in S : TRUE IN BMulInt(BProdSet(S \ {x}, size), size[x])
=============================================================================
