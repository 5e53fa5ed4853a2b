------------------------------ MODULE ModelBin ------------------------------
(* A model file in binary form, byte by byte: a head of lines (magic, type, *)
(* vocabulary, order, numbers of n-grams), then nodes of sixteen bytes.     *)
EXTENDS ModelText

\* cis-binlm2
Magic == <<99, 105, 115, 45, 98, 105, 110, 108, 109, 50, NL>>
Backoff == <<98, 97, 99, 107, 111, 102, 102>>
Interpolated == <<105, 110, 116, 101, 114, 112, 111, 108, 97, 116, 101, 100>>

Int32(t, i) == t[i] + (256 * t[i + 1]) + (65536 * t[i + 2]) + (16777216 * (IF t[i + 3] >= 128 THEN t[i + 3] - 256 ELSE t[i + 3]))
\* zero, or a number whose size is between 2^-63 and 256
Ordinary(t, i) == LET e == 2 * (t[i + 3] % 128) + (t[i + 2] \div 128) IN
                  (e >= 64 /\ e <= 134) \/ (\A j \in 0..3 : t[i + j] = 0)
Negative(t, i) == t[i + 3] >= 128 \/ (\A j \in 0..3 : t[i + j] = 0)
\* node n (from 0) of the nodes that begin at byte b
NodeAt(t, b, n) == LET i == b + (16 * n) IN
    [w |-> Int32(t, i), c |-> Int32(t, i + 12), ok |-> Ordinary(t, i + 4) /\ Negative(t, i + 4) /\ Ordinary(t, i + 8)]

\* ---- the head, line by line -----------------------------------------------
\* ph: type, words, vocab, size, counts, nodes; at: the next byte
BStart == [ph |-> "type", at |-> Len(Magic) + 1, words |-> 0, vocab |-> <<>>, order |-> 0, nodes |-> 0, counts |-> <<>>,
           bad |-> FALSE, open |-> FALSE]
Spaces == {9, 11, 12, 13, 32, 10}
Vague(l) == \A i \in DOMAIN l : l[i] \in Digit \cup Spaces \cup {43}
Number(l) == IF l # <<>> /\ Vague(l) /\ Count(l).k # "num" THEN [k |-> "free", v |-> 0]
             ELSE IF l = <<>> THEN [k |-> "bad", v |-> 0] ELSE Count(l)
Sum(c) == FoldLeft(LAMBDA a, x : a + x, 0, c)
\* what comes after the numbers of n-grams must not look like more of them
HeadLine(t, s) ==
    LET e == {i \in s.at..Len(t) : t[i] = NL}
    IN IF e = {} THEN IF s.ph = "nodes" THEN s
                      ELSE IF s.ph = "counts" /\ Is(t, s.at, Digit \cup Spaces) /\ (\E i \in s.at..Len(t) : t[i] = 0) THEN Open(s) ELSE Refuse(s)
       ELSE LET end == Min(e)
                l == SubSeq(t, s.at, end - 1)
                n == [s EXCEPT !.at = end + 1]
            IN CASE s.ph = "type" -> IF l \in {Backoff, Interpolated} THEN [n EXCEPT !.ph = "words"] ELSE Refuse(s)
                 [] s.ph = "words" ->
                      LET c == Number(l) IN
                      IF c.k = "bad" \/ (c.k = "num" /\ c.v = 0) THEN Refuse(s) ELSE IF c.k = "free" THEN Open(s)
                      ELSE [n EXCEPT !.words = c.v, !.ph = "vocab"]
                 [] s.ph = "vocab" ->
                      LET v == Append(s.vocab, l) IN
                      IF l = <<>> \/ (\E i \in DOMAIN l : l[i] \in {0} \cup Blank) \/ (\E i \in DOMAIN s.vocab : s.vocab[i] = l) THEN Open(s)
                      ELSE [n EXCEPT !.vocab = v, !.ph = IF Len(v) = s.words THEN "size" ELSE "vocab"]
                 [] s.ph = "size" ->
                      LET f == Fields(l)
                          o == Number(f[1])
                          m == Number(f[2])
                      IN IF \E i \in DOMAIN l : l[i] \notin Digit \cup Spaces \cup {43} THEN Refuse(s)
                         ELSE IF Len(f) # 2 THEN Open(s)
                         ELSE IF o.k = "free" \/ m.k = "free" THEN Open(s)
                         ELSE IF o.k = "bad" \/ m.k = "bad" \/ o.v = 0 \/ m.v = 0 THEN Refuse(s)
                         ELSE [n EXCEPT !.order = o.v, !.nodes = m.v, !.ph = "counts"]
                 [] s.ph = "counts" ->
                      LET c == Number(l) IN
                      \* the nodes follow without a newline: that may pass
                      IF c.k = "bad" THEN IF l = <<>> \/ (l[1] \in Digit \cup Spaces /\ \E i \in DOMAIN l : l[i] = 0) THEN Open(s) ELSE Refuse(s)
                      ELSE IF c.k = "free" THEN Open(s)
                      ELSE IF c.v = 0 THEN Open(s)
                      ELSE [n EXCEPT !.counts = Append(@, c.v), !.ph = IF Len(s.counts) + 1 = s.order THEN "nodes" ELSE "counts"]
                 [] s.ph = "nodes" -> s
RECURSIVE HeadLines(_, _)
HeadLines(t, s) == IF s.bad \/ s.open \/ s.ph = "nodes" THEN s ELSE HeadLines(t, HeadLine(t, s))

\* ---- the nodes --------------------------------------------------------------
\* the nodes of each order follow each other, and the children of an order
\* are among the nodes of the next
Upto(c, k) == Sum(SubSeq(c, 1, k))
OrderOf(c, i) == CHOOSE k \in 1..Len(c) : i >= Upto(c, k - 1) /\ i < Upto(c, k)
NodesFit(N, c, words) ==
    /\ c[1] = words
    /\ \A i \in 1..Sum(c) :
          LET k == OrderOf(c, i - 1)
              last == Upto(c, k)
          IN /\ N[i].w >= 0 /\ N[i].w < words /\ (k = 1 => N[i].w = i - 1)
             /\ N[i].c = -1 \/ (N[i].c >= last /\ N[i].c <= (IF k < Len(c) THEN Upto(c, k + 1) ELSE last))
BinVerdict(t) ==
    IF Len(t) < Len(Magic) THEN "refuse"
    ELSE LET s == HeadLines(t, BStart)
             magic == SubSeq(t, 1, Len(Magic)) = Magic
             rest == Len(t) - s.at + 1
         IN IF s.open THEN "free"
            ELSE IF s.bad THEN "refuse"
            ELSE IF Sum(s.counts) \notin {s.nodes, s.nodes - 1} THEN "refuse"
            ELSE IF rest >= 1 /\ t[s.at] \in Spaces \cup Digit THEN "free"
            ELSE IF rest < 16 * s.nodes THEN "refuse"
            ELSE LET N == TLCEval([i \in 1..s.nodes |-> NodeAt(t, s.at, i - 1)]) IN
                 IF ~NodesFit(N, s.counts, s.words) THEN "refuse"
                 ELSE IF rest > 16 * s.nodes \/ ~magic \/ (\E i \in 1..Sum(s.counts) : ~N[i].ok) THEN "free"
                 ELSE "accept"

\* ---- what a tree of nodes holds ---------------------------------------------
\* the children of node i (from 1), as positions
Children(N, i) == IF i + 1 > Len(N) \/ N[i].c < 0 THEN {}
                  ELSE IF N[i + 1].c < 0 THEN {}
                  ELSE (N[i].c + 1)..N[i + 1].c
RECURSIVE Below(_, _, _)
Below(N, i, path) == LET p == Append(path, N[i].w) IN {p} \cup UNION {Below(N, j, p) : j \in Children(N, i)}
TreeGrams(N, words) == UNION {Below(N, i, <<>>) : i \in 1..words}
=============================================================================
