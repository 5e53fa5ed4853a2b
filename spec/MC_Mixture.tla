------------------------------ MODULE MC_Mixture ------------------------------
(* All pairs of small normalized back-off models over two vocabularies.    *)
EXTENDS Mixture, Json
CONSTANTS Part, Grain
E8(i) == i * (One \div Grain)
\* distributions over words in parts of 1/Grain
Dists(ws) == {d \in [ws -> 1..(Grain - 1)] : SumOver(ws, LAMBDA x : d[x]) = Grain}
\* the n-grams after one context: some words listed, less than all mass
Lists(ws) == UNION {[s -> 1..(Grain \div 2)] : s \in (SUBSET ws) \ {{}}}
Uni(d) == [g \in {<<x>> : x \in DOMAIN d} |-> E8(d[g[1]])]
Build(d, h, l) ==
    LET P == Uni(d) @@ [g \in {<<h, x>> : x \in DOMAIN l} |-> E8(l[g[2]])]
    IN [p |-> P, w |-> IF l = << >> THEN << >> ELSE (<<h>> :> Renorm(P, << >>, <<h>>))]
NoList == << >>
Models(ws) == {Build(d, h, l) : d \in Dists(ws), h \in ws, l \in {x \in Lists(ws) : SumOver(DOMAIN x, LAMBDA y : x[y]) < Grain /\ (DOMAIN x # ws)}}
              \cup {[p |-> Uni(d), w |-> << >>] : d \in Dists(ws)}
VARIABLES m1, m2, c
vars == <<m1, m2, c>>
Shares == {0, One \div 4, One \div 2, One}
Seconds == CASE Part = "same" -> Models({"a", "b"}) [] Part = "other" -> Models({"b", "c"})
             [] Part = "more" -> Models({"a", "b", "c"})
Init == m1 \in Models({"a", "b"}) /\ c \in Shares /\ m2 = m1
Next == m2 = m1 /\ m2' \in Seconds /\ m2' # m1 /\ UNCHANGED <<m1, c>>
Spec == Init /\ [][Next]_vars

R == MixModel(m1, m2, c)
Ws(m) == {g[1] : g \in {x \in DOMAIN m.p : Len(x) = 1}}
Eps == 400
Normal(m) == \A h \in {Hist(g) : g \in DOMAIN m.p} : AbsV(SumOver(Ws(m), LAMBDA x : LinBo(m, Append(h, x))) - One) < Eps
\* the inputs are what they should be
Inputs == Normal(m1) /\ Normal(m2)
\* with both models in play, or one that knows all words, all contexts sum to one
Normalized == Normal(R)
Union == DOMAIN R.p = {g \in DOMAIN m1.p \cup DOMAIN m2.p : MixP(m1, m2, c, g) > 0}
\* the mixture itself, before it is made a back-off model, is a distribution
Convex == \A h \in {<<>>} \cup {<<x>> : x \in Ws(m1) \cup Ws(m2)} :
    AbsV(SumOver(Ws(m1) \cup Ws(m2), LAMBDA x : MixP(m1, m2, c, Append(h, x))) - One) < Eps
Close(a, b) ==
    /\ DOMAIN a.p = DOMAIN b.p
    /\ \A g \in DOMAIN a.p : AbsV(a.p[g] - b.p[g]) < Eps
    /\ \A h \in {Hist(g) : g \in {x \in DOMAIN a.p : Len(x) > 1}} : AbsV(PW(a, h) - PW(b, h)) < 16 * Eps
Swap == Close(R, MixModel(m2, m1, One - c))
Self == Close(MixModel(m1, m1, c), m1)
\* all weight on one model: its probabilities
Ends == /\ c = One => \A g \in DOMAIN R.p : AbsV(R.p[g] - LinBo(m1, g)) < Eps
        /\ c = 0 => \A g \in DOMAIN R.p : AbsV(R.p[g] - LinBo(m2, g)) < Eps
Pairs(f) == [i \in 1..Cardinality(DOMAIN f) |-> LET x == SetToSeq(DOMAIN f)[i] IN <<x, f[x]>>]
Emit == PrintT("CASE|" \o ToJson([a |-> [p |-> Pairs(m1.p), w |-> Pairs(m1.w)], b |-> [p |-> Pairs(m2.p), w |-> Pairs(m2.w)], c |-> c \div (One \div 4)]))
=============================================================================
