------------------------------ MODULE MC_MixLog ------------------------------
(* The logarithmic mixture against the linear one: the same value, between *)
(* the smaller and the larger part, and exact at the ends.                 *)
EXTENDS MixLog
VARIABLES a, b, c
Vals == {0, 1, 2, 5, 8, 13, 23, 40}
Shares == {0, One \div 8, One \div 3, One \div 2, One - One \div 50, One}
Init == a \in Vals /\ b \in Vals /\ c \in Shares
Next == UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>
L(x) == -4096 * x
M == MixOf(<< <<L(a), One - c>>, <<L(b), c>> >>)
Between == Min({L(a), L(b)}) - 2 <= M /\ M <= Max({L(a), L(b)}) + 2
AtEnds == (c = 0 => M = L(a)) /\ (c = One => M = L(b)) /\ (a = b => AbsV(M - L(a)) <= 2)
Linear == LET lin == FMul(One - c, Pow(a)) + FMul(c, Pow(b))
          IN lin < 200000 \/ AbsV(ToUnits(FLog2(lin)) - M) <= 4
Swap == AbsV(M - MixOf(<< <<L(b), c>>, <<L(a), One - c>> >>)) <= 1
=============================================================================
