------------------------------- MODULE KNProb -------------------------------
(* Discounts and smoothed probabilities as functions of the count state.   *)
EXTENDS KNCounts, FixLog

\* number of n-grams of order o counted exactly x times
CoC(c, o, x) == Cardinality({g \in DOMAIN c : Len(g) = o /\ c[g] = x})

Dinit == (71 * (One \div 100)) + ((71 * (One % 100)) \div 100)     \* 0.71
Tenth == One \div 10
(***************************************************************************)
(* Leave-one-out discounts of one order: a sequence of one discount, or of *)
(* three for counts 1, 2 and 3-or-more.  cur is what they were before.     *)
(***************************************************************************)
LooOne(c, o, cur) ==
    LET n1 == CoC(c, o, 1) n2 == CoC(c, o, 2)
    IN IF n1 = 0 \/ n2 = 0 THEN cur
       ELSE <<MaxOf(Tenth, MinOf(One - 2 * Tenth, One - FDiv(2 * n2, n1 + 2 * n2)))>>
LooThree(c, o, cur) ==
    LET n == [x \in 1..4 |-> CoC(c, o, x)]
        d(i) == IF n[i] = 0 THEN cur[i]
                ELSE LET num == (i + 1) * n[1] * n[i + 1]
                         den == (n[1] + 2 * n[2]) * n[i]
                     IN IF num >= i * den THEN Tenth
                        ELSE MaxOf(Tenth, MinOf(i * One - 2 * Tenth, i * One - FDiv(num, den)))
    IN IF n[1] = 0 \/ n[2] = 0 THEN cur ELSE <<d(1), d(2), d(3)>>
LooDisc(c, n, three) ==
    [o \in 1..n |-> IF three THEN LooThree(c, o, <<Dinit, Dinit, Dinit>>) ELSE LooOne(c, o, <<Dinit>>)]

DiscOf(disc, o, cl) == IF Len(disc[o]) = 1 THEN disc[o][1] ELSE disc[o][cl]

\* the interpolation weight of context h
Coeff(s, disc, h) ==
    LET o == Len(h) + 1
        r == GetBo(s.b, h)
    IN IF r.den = 0 THEN One
       ELSE r.nz1 * (DiscOf(disc, o, 1) \div r.den) + r.nz2 * (DiscOf(disc, o, 2) \div r.den)
            + r.nz3 * (DiscOf(disc, o, 3) \div r.den) + FDiv(r.pruned, r.den)
\* the share of the word's own count
Own(s, disc, g) ==
    LET c == Get(s.c, g) r == GetBo(s.b, Hist(g))
    IN IF c <= 0 \/ r.den <= 0 THEN 0
       ELSE FDiv(c, r.den) - DiscOf(disc, Len(g), Class(c)) \div r.den
\* smoothed probability of the last word of g given the others; V words share
\* the unigram remainder evenly
RECURSIVE PTable(_, _, _, _)
PTable(s, disc, g, V) ==
    IF Len(g) = 1
    THEN (IF GetBo(s.b, <<>>).den = 0 THEN 0 ELSE Coeff(s, disc, <<>>) \div V) + Own(s, disc, g)
    ELSE FMul(Coeff(s, disc, Hist(g)), PTable(s, disc, Tail(g), V)) + Own(s, disc, g)

(***************************************************************************)
(* The model file that is written: every n-gram with a count, the prefixes *)
(* of those, and every word; each with the smoothed probability of its     *)
(* last word (in the interpolated form: with its own share of it, words    *)
(* with all of it), and with the weight of its context if it is one.       *)
(* full = FALSE: entries that say nothing may be left out.                 *)
(***************************************************************************)
Counted(st) == {g \in DOMAIN st.c : st.c[g] # 0}
Listed(st, words) ==
    UNION {{SubSeq(g, 1, i) : i \in 1..Len(g)} : g \in Counted(st)}
    \cup {<<w>> : w \in RangeOf(words)} \cup {<<"<UNK>">>}
\* does a decimal logarithm in units of 1e-5 say p (fixed point)?
Says(lp, p, tol) == IF p > 2000 THEN AbsV(ToLog10(FLog2(p)) - lp) <= tol + 20000000 \div p
                    ELSE lp <= -300000
NoBackoff == 10000000     \* stands for: no back-off weight was written
BadEntries(st, disc, V, L, arpa, form) == {i \in DOMAIN arpa :
    LET g == arpa[i][1]
        h == arpa[i][3]
        tol == 30
        p == IF form = "arpa" \/ Len(g) = 1 THEN PTable(st, disc, g, V) ELSE Own(st, disc, g)
        weight == IF form = "arpa" THEN \E x \in L : Len(x) = Len(g) + 1 /\ Hist(x) = g
                  ELSE GetBo(st.b, g).den > 0
        co == Coeff(st, disc, g)
    IN \/ ~Says(arpa[i][2], p, tol)
       \/ (h = NoBackoff) # ~weight
       \/ (h # NoBackoff /\ ~Says(h, co, tol))}
FileDiff(st, disc, words, arpa, form, full) ==
    LET L == Listed(st, words)
        A == {arpa[i][1] : i \in DOMAIN arpa}
        bad == BadEntries(st, disc, Len(words) + 1, L, arpa, form)
    IN IF (full /\ L # A) \/ ~({g \in Counted(st) : Own(st, disc, g) > 2000} \subseteq A /\ A \subseteq L) \/ Cardinality(A) # Len(arpa)
       THEN "listed n-grams differ: " \o ToString((L \ A) \cup (A \ L))
       ELSE IF bad = {} THEN "" ELSE "probability or weight of " \o ToString(arpa[CHOOSE i \in bad : TRUE])
=============================================================================
