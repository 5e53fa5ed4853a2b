----------------------------- MODULE CountText -----------------------------
(* Files of counts, character by character (codes 0 to 255): which of them *)
(* a resumed training must take, with which tables, and which it must       *)
(* refuse.  Between the two there is "free": forms whose meaning nobody     *)
(* promises (numbers in unusual notation, carriage returns, NUL bytes).     *)
(*                                                                          *)
(* Smoothed counts (-c):       \vocabsize N, then for each order a section  *)
(*    of counts "[ 1 2 ] 7" and one of totals "[ 1 ] 3 9 0" (with three     *)
(*    discounts "[ 1 ] 2 1 0 9 0"), words by their numbers.                 *)
(* Highest-order counts (-Z):  "1 2 7" on every line.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
T == INSTANCE ModelText
Lines(t) == T!Lines(t)
Fields(l) == T!Fields(l)
Blank(l) == T!Empty(l)
DigitsOf(n) == T!DigitsOf(n)

Dash == 45
Slash == 92
Odd == {0, 11, 12, 13}
\* \vocabsize   -gram counts   -gram backoffs
Head0 == <<92, 118, 111, 99, 97, 98, 115, 105, 122, 101>>
CountsName == <<103, 114, 97, 109, 32, 99, 111, 117, 110, 116, 115>>
TotalsName == <<103, 114, 97, 109, 32, 98, 97, 99, 107, 111, 102, 102, 115>>
SectionLine(o, totals) == <<Slash>> \o DigitsOf(o) \o <<Dash>> \o (IF totals THEN TotalsName ELSE CountsName)
Open0 == << 91 >>
Close0 == << 93 >>

\* ---- numbers: [k |-> "num", v], "free" or "bad" ---------------------------
Num(s) ==
    IF T!AllDigits(s) /\ Len(s) <= 9 /\ (s[1] # 48 \/ Len(s) = 1) THEN [k |-> "num", v |-> T!Nat10(s)]
    ELSE IF T!AllDigits(s) /\ s[1] # 48 /\ (Len(s) > 10 \/ s[1] > 50) THEN [k |-> "bad", v |-> 0]
    ELSE IF \/ T!AllDigits(s)
            \/ Len(s) > 1 /\ s[1] = 43 /\ T!AllDigits(Tail(s))
            \/ Len(s) > 1 /\ s[1] = Dash /\ \A i \in 2..Len(s) : s[i] = 48
         THEN [k |-> "free", v |-> 0]
    ELSE [k |-> "bad", v |-> 0]

\* ---- reading, one line at a time ------------------------------------------
\* ord, totals: the section; top: the highest so far; cnt, tot: lines that were
\* taken; bad: refused; open: something that may mean anything was met
Start == [ph |-> "head", ord |-> 0, totals |-> FALSE, top |-> 0, cnt |-> <<>>, tot |-> <<>>, bad |-> FALSE, open |-> FALSE]
Refuse(s) == [s EXCEPT !.bad = TRUE]
Open(s) == [s EXCEPT !.open = TRUE]

HeadLine(s, l) ==
    IF Len(l) < Len(Head0) \/ SubSeq(l, 1, Len(Head0)) # Head0 THEN Refuse(s)
    ELSE LET r == SubSeq(l, Len(Head0) + 1, Len(l))
             d == {i \in DOMAIN r : r[i] \in T!Digit}
         IN IF Len(r) >= 2 /\ r[1] = 32 /\ Num(Tail(r)).k = "num" THEN (IF Num(Tail(r)).v = 0 THEN Open(s) ELSE [s EXCEPT !.ph = "body"])
            ELSE IF d # {} /\ \A i \in 1..(Min(d) - 1) : r[i] \in T!Blank \cup {43, Dash} THEN Open(s)
            ELSE Refuse(s)
\* the line between its dashes
Pieces(l) ==
    LET b == T!At({i \in DOMAIN l : l[i] # Dash /\ (i = 1 \/ l[i - 1] = Dash)})
        e == T!At({i \in DOMAIN l : l[i] # Dash /\ (i = Len(l) \/ l[i + 1] = Dash)})
    IN [i \in DOMAIN b |-> SubSeq(l, b[i], e[i])]
Section(s, l) ==
    LET p == Pieces(l)
    IN IF Len(p) # 2 \/ p[2] \notin {CountsName, TotalsName} THEN Refuse(s)
       ELSE LET d == SelectSeq(Tail(p[1]), LAMBDA c : c \notin T!Blank)
                o == Num(d)
            IN IF o.k = "bad" THEN Refuse(s)
               ELSE IF o.k = "num" /\ o.v \notin 1..(s.top + 1) THEN Refuse(s)
               ELSE IF l # SectionLine(o.v, p[2] = TotalsName) THEN Open(s)
               ELSE [s EXCEPT !.ord = o.v, !.top = IF o.v > @ THEN o.v ELSE @, !.totals = p[2] = TotalsName]
\* [ numbers ] values; k: how many values a line of totals has
Line0(s, l, k, words) ==
    LET f == Fields(l)
        n == IF s.totals THEN s.ord - 1 ELSE s.ord
        w == IF s.totals THEN k ELSE 1
    IN IF s.ord = 0 \/ Len(f) # n + w + 2 THEN Refuse(s)
       ELSE IF f[1] # Open0 \/ f[n + 2] # Close0 THEN Refuse(s)
       ELSE LET x == TLCEval([i \in 1..n |-> Num(f[i + 1])])
                y == TLCEval([i \in 1..w |-> Num(f[n + 2 + i])])
                g == [i \in 1..n |-> x[i].v]
            IN IF \/ \E i \in DOMAIN x : x[i].k = "bad" \/ (x[i].k = "num" /\ x[i].v >= words)
                  \/ \E i \in DOMAIN y : y[i].k = "bad"
               THEN Refuse(s)
               ELSE IF \E i \in DOMAIN x : x[i].k = "free" THEN Open(s)
               ELSE IF \E i \in DOMAIN y : y[i].k = "free" THEN Open(s)
               ELSE IF s.totals THEN [s EXCEPT !.tot = Append(@, <<g, [i \in 1..w |-> y[i].v]>>)]
               ELSE [s EXCEPT !.cnt = Append(@, <<g, y[1].v>>)]
ReadLine(s, l, k, words) ==
    IF s.bad \/ s.open THEN s
    ELSE IF \E i \in DOMAIN l : l[i] \in Odd THEN Open(s)
    ELSE IF s.ph = "head" THEN HeadLine(s, l)
    ELSE IF Blank(l) THEN s
    ELSE IF l[1] = Slash THEN Section(s, l)
    ELSE IF l[1] \in T!Blank THEN Open(s)
    ELSE Line0(s, l, k, words)

\* a line given twice: the last one counts
Latest(q) == [g \in {q[i][1] : i \in DOMAIN q} |-> q[Max({i \in DOMAIN q : q[i][1] = g})][2]]
Counts(s) == LET f == Latest(s.cnt) IN [g \in {g \in DOMAIN f : f[g] # 0} |-> f[g]]
Den(y) == y[Len(y) - 1]
Totals(s) == LET f == Latest(s.tot) IN [g \in {g \in DOMAIN f : Den(f[g]) # 0} |-> f[g]]
\* every n-gram has the totals of its context
Whole(s) == LET D == DOMAIN Totals(s) IN \A g \in DOMAIN Counts(s) : SubSeq(g, 1, Len(g) - 1) \in D
\* the totals of the highest order are the end
AtEnd(s) == IF s.open THEN s ELSE IF s.ph = "head" \/ s.cnt = <<>> \/ ~s.totals \/ s.ord # s.top \/ ~Whole(s) THEN Refuse(s) ELSE s
Read(t, k, words) == AtEnd(FoldLeft(LAMBDA s, l : ReadLine(s, l, k, words), Start, Lines(t)))
\* tables no training writes may be refused for other reasons: an order of which
\* only zeros are listed, or one in between of which nothing is; an n-gram
\* without its prefix; totals below the sum of the counts
Strange(s) ==
    LET C == TLCEval(Counts(s))
        Tt == TLCEval(Totals(s))
        O == {Len(g) : g \in DOMAIN C}
        L == {Len(s.cnt[i][1]) : i \in DOMAIN s.cnt}
    IN \/ O # 1..Cardinality(O) \/ L # O \/ s.ord # Cardinality(O)
       \/ \E g \in DOMAIN C : Len(g) > 1 /\ SubSeq(g, 1, Len(g) - 1) \notin DOMAIN C
       \/ \E g \in DOMAIN C : C[g] >= 1000000
       \/ \E h \in DOMAIN Tt : Len(h) < Max(O) /\ Den(Tt[h]) <
             FoldSet(LAMBDA g, a : a + C[g], 0, {g \in DOMAIN C : Len(g) = Len(h) + 1 /\ SubSeq(g, 1, Len(h)) = h})
Verdict(s) == IF s.open THEN "free" ELSE IF s.bad THEN "refuse" ELSE IF Strange(s) THEN "free" ELSE "accept"

\* ---- highest-order counts ----------------------------------------------------
HLine(s, l, n, words) ==
    LET f == Fields(l)
    IN IF s.bad \/ s.open \/ Blank(l) THEN s
       ELSE IF \E i \in DOMAIN l : l[i] \in Odd THEN Open(s)
       ELSE IF Len(f) # n + 1 THEN Refuse(s)
       ELSE LET x == TLCEval([i \in 1..n |-> Num(f[i])])
                y == Num(f[n + 1])
                r == T!Real(f[n + 1])
            IN IF \E i \in DOMAIN x : x[i].k = "bad" \/ (x[i].k = "num" /\ x[i].v >= words) THEN Refuse(s)
               ELSE IF y.k = "bad" /\ (T!AllDigits(f[n + 1]) \/ r.k = "bad" \/ f[n + 1][1] = Dash) /\ ~\E i \in 1..2 : T!Is(f[n + 1], i, {73, 105, 78, 110}) THEN Refuse(s)
               ELSE IF y.k # "num" \/ \E i \in DOMAIN x : x[i].k # "num" THEN Open(s)
               ELSE [s EXCEPT !.cnt = Append(@, <<[i \in 1..n |-> x[i].v], y.v>>)]
HRead(t, n, words) == FoldLeft(LAMBDA s, l : HLine(s, l, n, words), Start, Lines(t))
HVerdict(s) == IF s.open THEN "free" ELSE IF s.bad THEN "refuse"
               ELSE IF \A i \in DOMAIN s.cnt : s.cnt[i][2] = 0 THEN "refuse" ELSE "accept"

\* ---- the same without a machine: what the lines of a well-formed file are ----
WellFormed(t, k, words) ==
    LET L == Lines(t)
        N == TLCEval(SelectSeq(Tail(L), LAMBDA l : ~Blank(l)))
        S == {i \in DOMAIN N : N[i][1] = Slash}
        \* the section of a line: <<order, totals>>
        Names == {<<o, b>> : o \in 1..(Len(N) + 1), b \in BOOLEAN}
        Is(i) == {x \in Names : SectionLine(x[1], x[2]) = N[i]}
        Of(i) == CHOOSE x \in Is(Max({j \in S : j <= i})) : TRUE
        Body == DOMAIN N \ S
        Ok(i) == LET f == Fields(N[i])
                     o == Of(i)[1]
                     n == IF Of(i)[2] THEN o - 1 ELSE o
                 IN /\ Len(f) = n + 2 + (IF Of(i)[2] THEN k ELSE 1)
                    /\ f[1] = Open0 /\ f[n + 2] = Close0
                    /\ \A j \in DOMAIN f \ {1, n + 2} : Num(f[j]).k = "num" /\ (j <= n + 1 => Num(f[j]).v < words)
        Gram(i) == LET f == Fields(N[i]) IN [j \in 1..(IF Of(i)[2] THEN Of(i)[1] - 1 ELSE Of(i)[1]) |-> Num(f[j + 1]).v]
        Val(i) == LET f == Fields(N[i]) IN Num(f[IF Of(i)[2] THEN Len(f) - 1 ELSE Len(f)]).v
        Final(i) == ~\E j \in Body : j > i /\ Of(j)[2] = Of(i)[2] /\ Gram(j) = Gram(i)
    IN /\ L # <<>> /\ Len(L[1]) > Len(Head0) + 1 /\ SubSeq(L[1], 1, Len(Head0) + 1) = Append(Head0, 32)
       /\ Num(SubSeq(L[1], Len(Head0) + 2, Len(L[1]))).k = "num"
       /\ \A i \in S : Is(i) # {} /\ (Of(i)[1] = 1 \/ \E j \in S : j < i /\ Is(j) # {} /\ Of(j)[1] = Of(i)[1] - 1)
       /\ \A i \in Body : \E j \in S : j < i
       /\ \A i \in Body : Ok(i)
       /\ \E i \in Body : ~Of(i)[2]
       /\ \E i \in S : i = Max(S) /\ Of(i)[2] /\ \A j \in S : Of(j)[1] <= Of(i)[1]
       /\ \A i \in Body : ~Of(i)[2] /\ Final(i) /\ Val(i) # 0 =>
             \E j \in Body : Of(j) = <<Of(i)[1], TRUE>> /\ Final(j) /\ Val(j) # 0 /\ Gram(j) = SubSeq(Gram(i), 1, Len(Gram(i)) - 1)
=============================================================================
