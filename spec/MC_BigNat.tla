----------------------------- MODULE MC_BigNat -----------------------------
EXTENDS BigNat, TLC
VARIABLES a, b
N == {0, 1, 2, 9, 99, 9999, 10000, 10001, 19999, 20000, 32767, 40000}
Init == a \in N /\ b \in N
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
Sound == /\ BAdd(BFrom(a), BFrom(b)) = BFrom(a + b)
         /\ BMul(BFrom(a), BFrom(b)) = BFrom(a * b)
         /\ BSmall(BFrom(a), b) = BFrom(a * b)
         /\ BLt(BFrom(a), BFrom(b)) = (a < b)
         /\ BDiff(BFrom(a), BFrom(b)) = BFrom(IF a < b THEN b - a ELSE a - b)
         /\ BTrim(BFrom(a)) = BFrom(a)
         /\ BMul(BMul(BFrom(a), BFrom(b)), BFrom(40000)) = BMul(BFrom(a), BMul(BFrom(40000), BFrom(b)))
         /\ (a > 0 => BDiff(BMul(BFrom(a), BFrom(b)), BMul(BFrom(a - 1), BFrom(b))) = BFrom(b))
=============================================================================
