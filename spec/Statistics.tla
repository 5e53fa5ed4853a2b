----------------------------- MODULE Statistics -----------------------------
(* What is told about a model: how many n-grams it holds that are not mere *)
(* book-keeping (arpasize), and after which contexts its probabilities do   *)
(* not sum to one (check_model).                                            *)
EXTENDS NgramModel

Unk == "<UNK>"
\* a listed n-gram is book-keeping if it has no weight of its own and its
\* probability is the one backing off gives.  "old": it is; "new": it is
\* not; "either": so near that nobody can tell (the border is half a per
\* cent of the logarithm)
WeightLog(b) == IF b # 0 THEN "new" ELSE "old"
ClassLog(m, g, floor) ==
    IF Len(g) = 1 \/ WeightLog(LW(m, g)) = "new" THEN "new"
    ELSE LET p == m.p[g]
             q == LogBo(m, Tail(g), floor).lp + LW(m, Hist(g))
             d == AbsV(p - q)
             a == AbsV(p)
         IN IF a < 1000 /\ d < 100 THEN "either"
            ELSE IF d > a \div 160 THEN "new"
            ELSE IF d < a \div 240 THEN "old"
            ELSE "either"
\* the same for models whose weights and probabilities are linear numbers
WeightLin(b) == IF AbsV(b - One) > 2000 THEN "new" ELSE IF b # One THEN "either" ELSE "old"
ClassLin(m, g) ==
    IF Len(g) = 1 \/ WeightLin(PW(m, g)) = "new" THEN "new"
    ELSE LET p == LinProb(m, g)
             q == FMul(LinProb(m, Tail(g)), PW(m, Hist(g)))
             d == AbsV(p - q)
         IN IF MinOf(p, q) < 4000 \/ MaxOf(p, q) > One \div 2 THEN "either"
            ELSE IF d >= MinOf(p, q) \div 4 THEN "new"
            ELSE IF d <= (p \div 2000) THEN WeightLin(PW(m, g))
            ELSE "either"
\* per order: [lowest, highest] number reported; the unknown word is always there
Unknown(m) == IF <<Unk>> \in DOMAIN m.p THEN 0 ELSE 1
Sizes(m, class(_)) ==
    [o \in 1..Order(m) |->
       LET G == {g \in DOMAIN m.p : Len(g) = o}
           c == TLCEval([g \in G |-> class(g)])
           u == IF o = 1 THEN Unknown(m) ELSE 0
       IN <<u + Cardinality({g \in G : c[g] = "new"}), u + Cardinality({g \in G : c[g] # "old"})>>]

\* ---- sums ---------------------------------------------------------------
Vocab(m) == {g[1] : g \in {x \in DOMAIN m.p : Len(x) = 1}} \cup {Unk}
Known(m, x) == IF <<x>> \in DOMAIN m.p THEN x ELSE Unk
Total(m, h) == SumAfter(m, h, Vocab(m))
\* more than one per cent missing, or more than a thousandth too much
Low == One - (One \div 100)
High == One + (One \div 1000)
Fails(s) == s < Low \/ s > High
Doubtful(s, tol) == AbsV(s - Low) <= tol \/ AbsV(s - High) <= tol
\* the context that is looked at after the i-th word of a text
ContextAt(text, i, order) == SubSeq(text, MaxOf(1, i - order + 1), i)
=============================================================================
