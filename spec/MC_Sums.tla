------------------------------- MODULE MC_Sums -------------------------------
(* The smoothing formula over every count state that training and pruning  *)
(* can reach: all distributions sum to one, whatever the discounts.        *)
EXTENDS MC_KNCounts, KNProb
AllWords == Words \cup {"<UNK>"}
Discs == {<<One \div 10>>, <<Dinit>>, <<One \div 2, One, One + One \div 4>>}
Sums == (phase = "prune") =>
    \A d \in Discs : \A h \in {x \in DOMAIN b : b[x].den > 0} :
       AbsV(SumOver(AllWords, LAMBDA w : PTable(s, [i \in 1..cfg.n |-> d], Append(h, w), Cardinality(AllWords))) - One) < 200
=============================================================================
