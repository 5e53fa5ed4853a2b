------------------------------- MODULE FixLog -------------------------------
(* Fixed-point arithmetic for probabilities inside TLC's 32-bit integers.  *)
(* A number x in [0, 32) is represented by the integer x * 2^26.           *)
EXTENDS Integers, Sequences, TLC
One == 67108864          \* 2^26
P13 == 8192              \* 2^13
\* a * b for a, b < 4
FMul(a, b) == LET ah == a \div P13 al == a % P13 bh == b \div P13 bl == b % P13
              IN ah * bh + (ah * bl + al * bh) \div P13 + (al * bl) \div One
\* n / d for natural numbers below 2^18
FDiv(n, d) == LET a == n * P13 IN (a \div d) * P13 + ((a % d) * P13) \div d
\* log2 of x > 0, as an integer * 2^16
RECURSIVE LogBits(_, _, _)
LogBits(y, i, acc) ==
    IF i = 0 THEN acc
    ELSE LET z == FMul(y, y)
         IN IF z >= 2 * One THEN LogBits(z \div 2, i - 1, 2 * acc + 1)
            ELSE LogBits(z, i - 1, 2 * acc)
RECURSIVE Norm2(_, _)
Norm2(y, e) == IF y >= 2 * One THEN Norm2(y \div 2, e + 1)
               ELSE IF y < One THEN Norm2(y * 2, e - 1) ELSE <<y, e>>
FLog2(x) == LET ne == Norm2(x, 0) IN ne[2] * 65536 + LogBits(ne[1], 16, 0)
\* log10 in units of 1e-5, from a log2 in units of 2^-16 (0.30103e5/65536 = 0.45933)
\* split to stay within 32 bits
ToLog10(l) == LET m == IF l < 0 THEN -l ELSE l
                  v == (m \div 1000) * 459 + ((m \div 1000) * 334) \div 1000
                       + ((m % 1000) * 45933) \div 100000
              IN IF l < 0 THEN -v ELSE v
=============================================================================
