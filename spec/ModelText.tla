----------------------------- MODULE ModelText -----------------------------
(* A model file in text form, character by character (codes 0 to 255):     *)
(* what its readers must accept, with which n-grams, and what they must     *)
(* refuse.  Between the two there is "free": forms whose meaning nobody     *)
(* promises (trailing text, numbers in unusual notation, NUL bytes ...).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

NL == 10
Blank == {32, 9}
Digit == 48..57
\* \data\   \interpolated   iARPA   \end\   ngram_   <UNK>
Data == <<92, 100, 97, 116, 97, 92>>
Inter == {<<92, 105, 110, 116, 101, 114, 112, 111, 108, 97, 116, 101, 100>>, <<105, 65, 82, 80, 65>>}
End == <<92, 101, 110, 100, 92>>
Ngram == <<110, 103, 114, 97, 109, 32>>
Unk == <<60, 85, 78, 75, 62>>
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE DigitsOf(n \div 10) \o <<48 + (n % 10)>>
\* \k-grams:
Section(k) == <<92>> \o DigitsOf(k) \o <<45, 103, 114, 97, 109, 115, 58>>

\* ---- cutting text to lines and lines to fields ---------------------------
At(S) == SetToSortSeq(S, <)
Lines(t) == LET e == At({i \in DOMAIN t : t[i] = NL})
                n == Len(e)
                last == IF n = 0 THEN 0 ELSE e[n]
            IN TLCEval([i \in 1..n |-> SubSeq(t, IF i = 1 THEN 1 ELSE e[i - 1] + 1, e[i] - 1)])
               \o (IF last = Len(t) THEN <<>> ELSE <<SubSeq(t, last + 1, Len(t))>>)
Fields(l) == LET s == At({i \in DOMAIN l : l[i] \notin Blank /\ (i = 1 \/ l[i - 1] \in Blank)})
                 e == At({i \in DOMAIN l : l[i] \notin Blank /\ (i = Len(l) \/ l[i + 1] \in Blank)})
             IN TLCEval([i \in DOMAIN s |-> SubSeq(l, s[i], e[i])])
Empty(l) == \A i \in DOMAIN l : l[i] \in Blank
Trim(l) == IF Empty(l) THEN <<>>
           ELSE LET I == {i \in DOMAIN l : l[i] \notin Blank} IN SubSeq(l, Min(I), Max(I))

\* ---- numbers -------------------------------------------------------------
AllDigits(s) == s # <<>> /\ \A i \in DOMAIN s : s[i] \in Digit
Nat10(s) == FoldLeft(LAMBDA a, d : 10 * a + d - 48, 0, s)
\* [k |-> "num", v], "free" (may or may not be taken) or "bad"
Count(s) ==
    IF AllDigits(s) /\ Len(s) <= 6 /\ (s[1] # 48 \/ Len(s) = 1) THEN [k |-> "num", v |-> Nat10(s)]
    ELSE IF AllDigits(s) /\ s[1] # 48 THEN [k |-> "bad", v |-> 0]      \* more than can follow
    ELSE IF \A i \in DOMAIN s : s[i] \in Digit \cup {43, 9, 11, 12, 13, 32, 61} THEN [k |-> "free", v |-> 0]
    ELSE [k |-> "bad", v |-> 0]
\* one past the digits that start at i
After(s, i) == LET N == {j \in i..Len(s) : s[j] \notin Digit} IN IF N = {} THEN Len(s) + 1 ELSE Min(N)
Is(s, i, S) == i <= Len(s) /\ s[i] \in S
\* a logarithm: [-]digits[.digits][e[+-]digits]; the value in millionths
Real(s) ==
    LET i0 == IF Is(s, 1, {43, 45}) THEN 2 ELSE 1
        i1 == After(s, i0)
        dot == Is(s, i1, {46})
        i2 == IF dot THEN After(s, i1 + 1) ELSE i1
        whole == i1 - i0
        frac == IF dot THEN i2 - i1 - 1 ELSE 0
        e == Is(s, i2, {69, 101})
        i3 == IF ~e THEN i2 ELSE IF Is(s, i2 + 1, {43, 45}) THEN i2 + 2 ELSE i2 + 1
        i4 == IF e THEN After(s, i3) ELSE i2
        decimal == whole + frac >= 1 /\ (e => i4 > i3) /\ i4 = Len(s) + 1
        usual == decimal /\ ~Is(s, 1, {43}) /\ whole \in 1..2 /\ (dot => frac >= 1) /\ (e => i4 - i3 <= 1)
        other == \/ Is(s, 1, {9, 11, 12, 13, 32})                    \* white space
                 \/ Is(s, i0, {73, 105, 78, 110})                    \* inf, nan
                 \/ Is(s, i0, {48}) /\ Is(s, i0 + 1, {88, 120})      \* 0x
        exact == usual /\ ~e /\ frac <= 6
        w == IF whole = 0 THEN 0 ELSE Nat10(SubSeq(s, i0, i1 - 1))
        f == IF frac = 0 THEN 0 ELSE Nat10(SubSeq(s, i1 + 1, i2 - 1) \o [i \in 1..(6 - frac) |-> 48])
        v == (w * 1000000) + f
    IN IF exact THEN [k |-> "num", v |-> IF s[1] = 45 THEN -v ELSE v, exact |-> TRUE]
       ELSE IF usual THEN [k |-> "num", v |-> 0, exact |-> FALSE]
       ELSE IF decimal \/ other THEN [k |-> "free", v |-> 0, exact |-> FALSE]
       ELSE [k |-> "bad", v |-> 0, exact |-> FALSE]

\* ---- reading, one line at a time ------------------------------------------
\* ph: seek, counts, body, end; bad: the line that must be refused
\* free: something was met that may be refused or taken, and is taken here;
\* open: something that may mean anything; loose: only the values are open
Start == [ph |-> "seek", inter |-> FALSE, counts |-> <<>>, ord |-> 0, left |-> 0, grams |-> <<>>,
          bad |-> FALSE, free |-> FALSE, open |-> FALSE, loose |-> FALSE]
Refuse(s) == [s EXCEPT !.bad = TRUE]
Free(s) == [s EXCEPT !.free = TRUE]
Open(s) == [s EXCEPT !.open = TRUE]

\* a line that must open the next section (or end the file)
Opens(s, l) ==
    LET k == s.ord + 1
        want == IF k <= Len(s.counts) THEN Section(k) ELSE End
        s1 == [s EXCEPT !.ord = k, !.left = IF k <= Len(s.counts) THEN s.counts[k] ELSE 0,
                        !.ph = IF k <= Len(s.counts) THEN "body" ELSE "end"]
    IN IF l = want THEN s1 ELSE IF Trim(l) = want THEN Free(s1) ELSE Refuse(s)
CountLine(s, l) ==
    IF Len(l) < 6 \/ SubSeq(l, 1, 6) # Ngram THEN IF Trim(l) # l \/ (Len(l) >= 6 /\ SubSeq(l, 1, 5) = SubSeq(Ngram, 1, 5) /\ l[6] \in Digit) THEN Open(s) ELSE Refuse(s)
    ELSE LET r == SubSeq(l, 7, Len(l))
             E == {i \in DOMAIN r : r[i] = 61}
         IN IF E = {} THEN Refuse(s)
            ELSE LET o == Count(SubSeq(r, 1, Min(E) - 1))
                     c == Count(SubSeq(r, Min(E) + 1, Len(r)))
                 IN IF o.k = "bad" \/ c.k = "bad" \/ SubSeq(r, 1, Min(E) - 1) = <<>> \/ SubSeq(r, Min(E) + 1, Len(r)) = <<>> THEN Refuse(s)
                    ELSE IF o.k = "free" \/ c.k = "free" THEN Open(s)
                    ELSE IF o.v # Len(s.counts) + 1 THEN Refuse(s)
                    ELSE [s EXCEPT !.counts = Append(@, c.v)]
GramLine(s, l) ==
    LET f == Fields(l)
        k == s.ord
    IN IF Len(f) \notin {k + 1, k + 2} THEN Refuse(s)
       ELSE LET p == Real(f[1])
                b == IF Len(f) = k + 2 THEN Real(f[k + 2]) ELSE [k |-> "num", v |-> 0, exact |-> TRUE]
                g == [w |-> SubSeq(f, 2, k + 1), p |-> p.v, b |-> b.v]
            IN IF p.k = "bad" \/ b.k = "bad" THEN Refuse(s)
               ELSE [s EXCEPT !.left = @ - 1, !.grams = Append(@, g), !.free = @ \/ p.k = "free" \/ b.k = "free",
                              !.loose = @ \/ ~p.exact \/ ~b.exact \/ p.v > 0]
ReadLine(s, l) ==
    IF s.bad \/ s.open THEN s
    ELSE IF \E i \in DOMAIN l : l[i] = 0 THEN Open(s)
    ELSE CASE s.ph = "seek" ->
                IF l = Data THEN [s EXCEPT !.ph = "counts"]
                ELSE IF l \in Inter THEN [s EXCEPT !.inter = TRUE]
                ELSE IF Trim(l) = Data \/ Trim(l) \in Inter THEN Open(s) ELSE s
           [] s.ph = "counts" ->
                IF Empty(l) THEN s
                ELSE IF l[1] # 92 THEN CountLine(s, l)
                ELSE IF s.counts = <<>> THEN Refuse(s)
                ELSE Opens(s, l)
           [] s.ph = "body" ->
                IF Empty(l) THEN IF s.left > 0 /\ s.left < s.counts[s.ord] THEN Free(s) ELSE s
                ELSE IF s.left = 0 THEN Opens(s, l)
                ELSE GramLine(s, l)
           [] s.ph = "end" -> IF Empty(l) THEN s ELSE Free(s)
\* the state after the whole file
AtEnd(s) == IF s.ph = "end" \/ s.open THEN s ELSE Refuse(s)
Read(t) == AtEnd(FoldLeft(ReadLine, Start, Lines(t)))

\* ---- what the kinds of readers require besides -----------------------------
Words(s) == {s.grams[i].w[1] : i \in {i \in DOMAIN s.grams : Len(s.grams[i].w) = 1}} \cup {Unk}
Listed(s) == {s.grams[i].w : i \in DOMAIN s.grams} \cup {<<Unk>>}
\* the unknown word may be given again
Twice(s) == \E i, j \in DOMAIN s.grams : i < j /\ s.grams[i].w = s.grams[j].w /\ s.grams[i].w # <<Unk>>
UnkTwice(s) == \E i, j \in DOMAIN s.grams : i < j /\ s.grams[i].w = <<Unk>> /\ s.grams[j].w = <<Unk>>
NoUnigram(s) == \E i \in DOMAIN s.grams : \E j \in DOMAIN s.grams[i].w : s.grams[i].w[j] \notin Words(s)
NoPrefix(s) == LET L == TLCEval(Listed(s))
               IN \E i \in DOMAIN s.grams : \E n \in 1..(Len(s.grams[i].w) - 1) : SubSeq(s.grams[i].w, 1, n) \notin L
\* "tree": a prefix tree (arpa2bin, arpa2arpa, perplexity -a, arpasize, check_model -a),
\* "hash": n-grams as they come (-f, add_zeroprob_grams), "mix": several models' words together,
\* "join": as they come, back-off models only (simpleinterpolate2arpa),
\* "head": the counts only (arpasize -S)
Verdict(kind, s, h) ==
    IF kind = "head" THEN h
    ELSE IF s.open THEN "free" ELSE IF s.bad THEN "refuse" ELSE IF s.free THEN "free"
    ELSE IF s.counts[1] = 0 \/ UnkTwice(s) THEN "free"
    ELSE CASE kind = "tree" -> IF Twice(s) \/ NoUnigram(s) \/ NoPrefix(s) THEN "refuse" ELSE "accept"
           [] kind = "hash" -> IF Twice(s) \/ NoUnigram(s) THEN "free" ELSE "accept"
           [] kind = "mix" -> IF NoUnigram(s) THEN "free" ELSE IF Twice(s) \/ NoPrefix(s) THEN "refuse" ELSE "accept"
           [] kind = "join" -> IF s.inter THEN "refuse" ELSE IF Twice(s) \/ NoUnigram(s) THEN "free" ELSE "accept"
\* the head: up to the first blank line after the counts
HeadStep(h, l) ==
    IF h[1] # "go" THEN h
    ELSE LET s == ReadLine(h[2], l) IN
         IF s.free \/ s.open \/ (s.bad /\ s.ph = "counts" /\ (Len(l) > 13 \/ \E i \in DOMAIN l : l[i] \in {9, 11, 12, 13})) THEN <<"free", s>> ELSE IF s.bad THEN <<"refuse", s>>
         ELSE IF h[2].ph = "counts" /\ Empty(l) THEN <<IF l = <<>> /\ s.counts # <<>> THEN "accept" ELSE "free", s>>
         ELSE IF s.ph = "body" THEN <<"free", s>>
         ELSE <<"go", s>>
HeadOf(t) == LET h == FoldLeft(HeadStep, <<"go", Start>>, Lines(t)) IN
           [v |-> IF h[1] = "go" THEN "refuse" ELSE h[1], counts |-> h[2].counts]

\* ---- the same without a machine: the lines a well-formed file has ---------
\* after \data\, blank lines left out: counts, then every section with its lines, then the end
WellFormed(t) ==
    LET L == Lines(t)
        D == {i \in DOMAIN L : L[i] = Data}
    IN /\ D # {}
       /\ LET N == TLCEval(SelectSeq(SubSeq(L, Min(D) + 1, Len(L)), LAMBDA l : ~Empty(l)))
              C == {i \in DOMAIN N : \A j \in 1..i : N[j][1] # 92}
              n == Cardinality(C)
              cnt == TLCEval([i \in 1..n |-> CountLine([Start EXCEPT !.counts = [j \in 1..(i - 1) |-> 0]], N[i])])
          IN /\ n >= 1
             /\ \A i \in 1..n : ~cnt[i].bad /\ Len(cnt[i].counts) = i
             /\ LET c == TLCEval([i \in 1..n |-> cnt[i].counts[i]])
                    at == [k \in 1..(n + 1) |-> n + k + FoldLeft(LAMBDA a, x : a + x, 0, SubSeq(c, 1, k - 1))]
                IN /\ Len(N) >= at[n + 1] /\ N[at[n + 1]] = End
                   /\ \A k \in 1..n : /\ N[at[k]] = Section(k)
                                      /\ \A i \in (at[k] + 1)..(at[k + 1] - 1) :
                                           LET f == Fields(N[i]) IN
                                           /\ Len(f) \in {k + 1, k + 2}
                                           /\ Real(f[1]).k = "num" /\ (Len(f) = k + 2 => Real(f[k + 2]).k = "num")
=============================================================================
