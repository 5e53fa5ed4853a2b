------------------------------- MODULE Scale -------------------------------
(* Texts, models and numbers far larger than a machine can go through step *)
(* by step, described by formulas: what KNCounts and NgramModel say about   *)
(* them can be computed at any single place.  MC_Scale shows on small ones  *)
(* that the formulas say what those specifications say.                     *)
(*                                                                          *)
(* The text: rounds 1..R, each visiting the words 0..N-1 once, round r      *)
(* starting at st[r] and going in steps of sd[r] (modulo N; inv[r] is the   *)
(* step's inverse).                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

\* products below 2^31 only
MulMod(a, b, m) == (((a * (b \div 256)) % m) * 256 + a * (b % 256)) % m

\* ---- the text -------------------------------------------------------------
Rounds(t) == Len(t.st)
\* the words that count rounds
Plain(t) == Rounds(t) * t.n
Visit(t, p) == LET r == (p \div t.n) + 1 IN (t.st[r] + MulMod(t.sd[r], p % t.n, t.n)) % t.n
\* in a comb another word, n, follows each of them
Hub(t) == t.n
Words(t) == 0..(IF t.comb THEN t.n ELSE t.n - 1)
Length(t) == IF t.comb THEN 2 * Plain(t) ELSE Plain(t)
Tok(t, p) == IF ~t.comb THEN Visit(t, p) ELSE IF p % 2 = 0 THEN Visit(t, p \div 2) ELSE Hub(t)
ProperText(t) == \A r \in 1..Rounds(t) : MulMod(t.sd[r], t.inv[r], t.n) = 1
\* where word x is met in round r
Place(t, x, r) == (r - 1) * t.n + MulMod((x + t.n - t.st[r]) % t.n, t.inv[r], t.n)
At(t, p, g) == p >= 0 /\ p + Len(g) <= Length(t) /\ \A j \in 1..Len(g) : Tok(t, p + j - 1) = g[j]
Occ(t, g) ==
    IF ~t.comb THEN {p \in {Place(t, g[1], r) : r \in 1..Rounds(t)} : At(t, p, g)}
    ELSE IF g[1] # Hub(t) THEN {p \in {2 * Place(t, g[1], r) : r \in 1..Rounds(t)} : At(t, p, g)}
    ELSE IF Len(g) = 1 THEN {2 * p + 1 : p \in 0..(Plain(t) - 1)}
    ELSE IF g[2] = Hub(t) THEN {}
    ELSE {p \in {2 * Place(t, g[2], r) - 1 : r \in 1..Rounds(t)} : At(t, p, g)}
Window(t, p, o) == [j \in 1..o |-> Tok(t, p + j - 1)]

\* ---- counts: order n is the highest ------------------------------------------
\* top: the occurrences; below: with absolute discounting too, else the distinct
\* words in front (and one for the beginning of the text)
Count(t, n, absolute, g) ==
    LET P == TLCEval(Occ(t, g))
    IN IF Len(g) = n \/ absolute THEN Cardinality(P)
       ELSE Cardinality({Tok(t, p - 1) : p \in P \ {0}}) + Cardinality(P \cap {0})
Conts(t, h) == {Tok(t, q + Len(h)) : q \in {p \in Occ(t, h) : p + Len(h) < Length(t)}}
Class(c) == IF c >= 3 THEN 3 ELSE c
\* [den, nz1, nz2, nz3] after a context that is not empty
After(t, n, absolute, h) ==
    LET C == {<<w, Count(t, n, absolute, Append(h, w))>> : w \in Conts(t, h)}
    IN <<FoldSet(LAMBDA x, a : a + x[2], 0, C)>> \o [k \in 1..3 |-> Cardinality({x \in C : Class(x[2]) = k})]
\* and after the empty one: only a pass through all words tells
AfterNothing(t, n, absolute) ==
    LET f == FoldSet(LAMBDA x, a : LET c == Count(t, n, absolute, <<x>>) IN
                        [a EXCEPT ![1] = @ + c, ![Class(c) + 1] = @ + 1], <<0, 0, 0, 0>>, Words(t))
    IN f
\* how many different n-grams of o words (the steps of the rounds are different);
\* first without the comb
InRound(t, g) == \E r \in 1..Rounds(t) : LET p == Place(t, g[1], r) IN (p % t.n) + Len(g) <= t.n /\ At(t, p, g)
Joints(t, o) == {g \in {Window(t, p, o) : p \in {r * t.n - i : r \in 1..(Rounds(t) - 1), i \in 1..(IF o - 1 < t.n THEN o - 1 ELSE t.n)}
                                              \cap 0..(Length(t) - o)} : ~InRound(t, g)}
PlainSize(t, o) == IF o = 0 THEN 1 ELSE IF o = 1 THEN t.n
                   ELSE IF o > Length(t) THEN 0
                   ELSE IF o <= t.n THEN Rounds(t) * (t.n - o + 1) + Cardinality(Joints(t, o))
                   ELSE Cardinality({Window(t, p, o) : p \in 0..(Length(t) - o)})
\* those that begin with a word, and those that begin with the comb's: the words
\* at the beginning of the text come after none
Size(t, o) == LET u == [t EXCEPT !.comb = FALSE]
                  j == o \div 2
              IN IF ~t.comb THEN PlainSize(t, o)
                 ELSE PlainSize(u, o - j)
                      + (IF j = 0 THEN 1
                         ELSE IF j > Plain(t) THEN 0
                         ELSE PlainSize(u, j) - (IF Cardinality(Occ(u, Window(u, 0, j))) = 1 THEN 1 ELSE 0))
\* how many contexts the n-grams of o words have
Contexts(t, o) == IF o = 1 THEN 1
                  ELSE IF o > Length(t) THEN 0
                  ELSE Size(t, o - 1) - (IF Conts(t, Window(t, Length(t) - o + 1, o - 1)) = {} THEN 1 ELSE 0)

\* ---- a model over the words 0..N-1 ---------------------------------------------
\* chains of words m.s apart, as long as no word before the last is a multiple of m.skip;
\* anything comes after the word m.hub (-1: no such word)
Link(m, x, y) == IF x = m.hub THEN TRUE ELSE y = (x + m.s) % m.n /\ x % m.skip # 0
Leads(m, x) == x = m.hub \/ x % m.skip # 0
Holds(m, g) == Len(g) <= m.order /\ (\A i \in DOMAIN g : g[i] \in 0..(m.n - 1)) /\ \A i \in 2..Len(g) : Link(m, g[i - 1], g[i])
Mix(g, k) == FoldLeft(LAMBDA a, w : (a * 31 + (w % 9973) * 7 + (w \div 257)) % 8191, k, g)
\* in eighths of a decade
Value(m, g) == -(1 + (Mix(g, m.a) % 37))
\* weights only where something follows, and not everywhere
Weight(m, h) == IF Len(h) < m.order /\ Holds(m, h) /\ Leads(m, h[Len(h)]) /\ Mix(h, m.b) % 5 # 0 THEN -(Mix(h, m.b) % 11) ELSE 0
RECURSIVE Ask(_, _)
Ask(m, g) == IF Holds(m, g) THEN [lp |-> Value(m, g), ord |-> Len(g)]
             ELSE LET r == Ask(m, Tail(g)) IN [lp |-> r.lp + Weight(m, SubSeq(g, 1, Len(g) - 1)), ord |-> r.ord]
Recent(m, g) == IF Len(g) <= m.order THEN g ELSE SubSeq(g, Len(g) - m.order + 1, Len(g))

\* ---- numbers of any size: limbs of four digits, the lowest first ------------------
Base == 10000
RECURSIVE Carry(_, _)
Carry(x, c) == IF x = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
               ELSE <<(x[1] + c) % Base>> \o Carry(Tail(x), (x[1] + c) \div Base)
Limb(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
Plus(x, y) == Carry([i \in 1..(IF Len(x) > Len(y) THEN Len(x) ELSE Len(y)) |-> Limb(x, i) + Limb(y, i)], 0)
Small(x) == IF Len(x) > 1 THEN Base ELSE Limb(x, 1)
RECURSIVE BigSum(_, _)
BigSum(S, f) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN Plus(f[x], BigSum(S \ {x}, f))
\* KNCounts' Estimate for tables of such numbers (all of the highest order)
RECURSIVE BigCounts(_, _, _)
BigCounts(c, o, absolute) ==
    IF o = 1 THEN c
    ELSE LET G == {g \in DOMAIN c : Len(g) = o}
             T == {Tail(g) : g \in G}
             One(n) == <<n>>
         IN BigCounts([t \in T |-> IF absolute THEN BigSum({g \in G : Tail(g) = t}, c)
                                   ELSE One(Cardinality({g \in G : Tail(g) = t}))] @@ c, o - 1, absolute)
BigAfter(c, h) ==
    LET G == {g \in DOMAIN c : Len(g) = Len(h) + 1 /\ SubSeq(g, 1, Len(h)) = h}
    IN <<BigSum(G, c)>> \o [k \in 1..3 |-> Cardinality({g \in G : Class(Small(c[g])) = k})]
=============================================================================
