------------------------------ MODULE Mixture ------------------------------
(* Linear mixtures of back-off models (linear values, FixLog).  A model    *)
(* that does not know a word gives it nothing.                             *)
EXTENDS NgramModel

\* a / b for 0 <= a < 32 b
RECURSIVE QBits(_, _, _, _)
QBits(r, b, i, acc) == IF i = 0 THEN acc
                       ELSE IF 2 * r >= b THEN QBits(2 * r - b, b, i - 1, 2 * acc + 1) ELSE QBits(2 * r, b, i - 1, 2 * acc)
QDiv(a, b) == LET q == a \div b IN IF q >= 31 THEN 31 * One ELSE QBits(a % b, b, 26, q)

\* c: share of the first model
MixP(m1, m2, c, g) == FMul(c, LinBo(m1, g)) + FMul(One - c, LinBo(m2, g))

(***************************************************************************)
(* The mixture as one back-off model: the n-grams of both, with their      *)
(* mixed probabilities; what two models leave of the unigram mass is       *)
(* spread evenly; the weights then make every context sum to one.          *)
(***************************************************************************)
Under(P, h) == SumOver({g \in DOMAIN P : Hist(g) = h /\ Len(g) = Len(h) + 1}, LAMBDA g : P[g])
Raw(m1, m2, c) == LET G == DOMAIN m1.p \cup DOMAIN m2.p
                  IN TLCEval([g \in G |-> MixP(m1, m2, c, g)])
Spread(raw) == LET G == {g \in DOMAIN raw : raw[g] > 0}
                   U == {g \in G : Len(g) = 1}
                   sum == SumOver(U, LAMBDA g : raw[g])
                   each == IF sum > One \div 1000 /\ sum < One THEN (One - sum) \div Cardinality(U) ELSE 0
               IN TLCEval([g \in G |-> raw[g] + (IF Len(g) = 1 THEN each ELSE 0)])
\* mass left for the words not listed after h, and what the shorter context
\* gives them; w: weights of the shorter contexts
Left(P, h) == One - Under(P, h)
Lower(P, w, h) == One - SumOver({g \in DOMAIN P : Hist(g) = h /\ Len(g) = Len(h) + 1},
                                LAMBDA g : LinBo([p |-> P, w |-> w], Tail(g)))
Renorm(P, w, h) == LET a == Left(P, h) b == Lower(P, w, h) IN IF a <= 0 \/ b <= 0 THEN 0 ELSE QDiv(a, b)
Ctxs(P, n) == {Hist(g) : g \in {x \in DOMAIN P : Len(x) = n + 1}}
RECURSIVE Reweigh(_, _, _, _)
Reweigh(P, w, n, top) ==
    IF n >= top THEN w
    ELSE LET cs == Ctxs(P, n) IN Reweigh(P, TLCEval([h \in cs |-> Renorm(P, w, h)] @@ w), n + 1, top)
MixModel(m1, m2, c) ==
    LET P == Spread(Raw(m1, m2, c))
    IN [p |-> P, w |-> Reweigh(P, m1.w, 1, Max({Len(g) : g \in DOMAIN P} \cup {1}))]
\* models: <<model, weight>> with natural weights, one after another
RECURSIVE MixAll(_, _, _, _)
MixAll(ms, i, acc, total) ==
    IF i > Len(ms) THEN acc
    ELSE LET t == total + ms[i].weight
         IN MixAll(ms, i + 1, MixModel(acc, ms[i].m, FDiv(total, t)), t)
Mixed(ms) == MixAll(ms, 2, ms[1].m, ms[1].weight)
=============================================================================
