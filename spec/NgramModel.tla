----------------------------- MODULE NgramModel -----------------------------
(* What an n-gram model is and what it says.  A model is a record with     *)
(*   p : n-gram -> value of the last word after the others                 *)
(*   w : context -> back-off (or interpolation) weight, where it has one   *)
(* in one of two number systems:                                           *)
(*   logarithmic  integers, in units the data defines; absent weight 0     *)
(*   linear       fixed point of FixLog; absent weight One                 *)
EXTENDS Grams, FixLog

\* [gram, value] pairs as a function
ToFun(s) == [g \in {s[i][1] : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i][1] = g][2]]
NoDup(s) == Cardinality({s[i][1] : i \in DOMAIN s}) = Len(s)

LW(m, h) == IF h \in DOMAIN m.w THEN m.w[h] ELSE 0
PW(m, h) == IF h \in DOMAIN m.w THEN m.w[h] ELSE One
Order(m) == Max({Len(g) : g \in DOMAIN m.p} \cup {1})

(***************************************************************************)
(* Back-off models, logarithms: the longest stored suffix, plus the        *)
(* weights of the contexts given up on the way.  A word that is not even a *)
(* unigram gets the floor value.                                           *)
(***************************************************************************)
RECURSIVE LogBo(_, _, _)
LogBo(m, g, floor) ==
    IF g \in DOMAIN m.p THEN [lp |-> m.p[g], ord |-> Len(g)]
    ELSE IF Len(g) = 1 THEN [lp |-> floor, ord |-> 1]
    ELSE LET r == LogBo(m, Tail(g), floor) IN [lp |-> r.lp + LW(m, Hist(g)), ord |-> r.ord]

\* the same, linear
RECURSIVE LinBo(_, _)
LinBo(m, g) ==
    IF g \in DOMAIN m.p THEN m.p[g]
    ELSE IF Len(g) = 1 THEN 0
    ELSE FMul(LinBo(m, Tail(g)), PW(m, Hist(g)))

(***************************************************************************)
(* Interpolated models: the sum over all suffixes of the stored shares,    *)
(* each weighted by the weights of all longer contexts.                    *)
(***************************************************************************)
RECURSIVE LinInt(_, _)
LinInt(m, g) ==
    (IF g \in DOMAIN m.p THEN m.p[g] ELSE 0)
    + (IF Len(g) = 1 THEN 0 ELSE FMul(LinInt(m, Tail(g)), PW(m, Hist(g))))
RECURSIVE IntOrder(_, _)
IntOrder(m, g) == IF g \in DOMAIN m.p \/ Len(g) = 1 THEN Len(g) ELSE IntOrder(m, Tail(g))

LinProb(m, g) == IF m.inter THEN LinInt(m, g) ELSE LinBo(m, g)

\* all probability after h
SumAfter(m, h, words) == SumOver(words, LAMBDA w : LinProb(m, Append(h, w)))

Suffix(h, n) == IF Len(h) <= n THEN h ELSE SubSeq(h, Len(h) - n + 1, Len(h))
Heads(g) == {SubSeq(g, 1, i) : i \in 1..Len(g)}
PrefixClosed(m) == \A g \in DOMAIN m.p : Heads(g) \subseteq DOMAIN m.p
=============================================================================
