------------------------------- MODULE MixLog -------------------------------
(* Linear mixtures of back-off models given by their logarithms, in units  *)
(* of 2^-15 of a decade; the values of the models are multiples of 1/8.    *)
EXTENDS Perplexity
Unit == 32768
Floor == -60 * Unit
Eighths == <<67108864, 50324549, 37738088, 28299573, 21221686, 15914020, 11933831, 8949111>>
RECURSIVE Tenth(_, _)
Tenth(x, n) == IF n = 0 THEN x ELSE IF n > 9 THEN 0 ELSE Tenth((x + 5) \div 10, n - 1)
\* 10^(-d/8)
Pow(d) == Tenth(Eighths[(d % 8) + 1], d \div 8)
\* log2 in units of 2^-16 to log10 in units of 2^-15
ToUnits(l) == LET m == IF l < 0 THEN -l ELSE l
                  v == (m \div 10000) * 1505 + ((m \div 10000) * 15) \div 100 + ((m % 10000) * 15051) \div 100000
              IN IF l < 0 THEN -v ELSE v
\* parts: <<logarithm, share>>
MixOf(parts) ==
    LET some == {i \in DOMAIN parts : parts[i][2] > 0}
        top == Max({parts[i][1] : i \in some})
        \* only as far down as the fixed point reaches
        sum == SumOver(some, LAMBDA i : LET d == (top - parts[i][1]) \div 4096 IN IF d > 70 THEN 0 ELSE FMul(parts[i][2], Pow(d)))
        v == IF Cardinality(some) = 1 /\ \E i \in some : parts[i][2] = One THEN top ELSE top + ToUnits(FLog2(sum))
    IN IF v < Floor THEN Floor ELSE v
\* the models' own lookups of g, and the order the main one reports
Parts(ms, g) == [i \in DOMAIN ms |-> <<LogBo(ms[i], g, Floor).lp, ms[i].share>>]
Mix(ms, g) == MixOf(Parts(ms, g))
=============================================================================
