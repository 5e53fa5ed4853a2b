------------------------------ MODULE VocabSel ------------------------------
(* Which vocabularies a training run may end with.                         *)
EXTENDS Grams
Seen(text, w) == Cardinality({i \in DOMAIN text : text[i] = w})
RealWords(text) == RangeOf(text) \ {"<UNK>"}
NoDup(s) == Cardinality(RangeOf(s)) = Len(s)

\* words of the text in order of first appearance, after the ones in base
FirstSeenFrom(base, text) ==
    FoldLeft(LAMBDA acc, w : IF w \in RangeOf(acc) \/ w = "<UNK>" THEN acc ELSE Append(acc, w), base, text)

\* the nfirst most frequent words (nfirst <= 0: no limit) among those seen at
\* least ndrop times; which of equally frequent words are taken is free
SelectOK(text, words, nfirst, ndrop) ==
    LET W == RangeOf(words)
        cand == {w \in RealWords(text) : Seen(text, w) >= ndrop}
        lim == IF nfirst <= 0 THEN Cardinality(cand) ELSE MinOf(nfirst, Cardinality(cand))
    IN /\ NoDup(words)
       /\ W \subseteq cand
       /\ Cardinality(W) = lim
       /\ \A w \in W, x \in cand \ W : Seen(text, w) >= Seen(text, x)

(* A word list file: one word per line, stripped of white space and cut at  *)
(* the first space or opening bracket after its first character; lines     *)
(* without a word, "_" and "__", and words already there do not count.     *)
Ch(s, i) == SubSeq(s, i, i)
White(x) == x \in {" ", "\t", "\n", "\r"}
RECURSIVE LStrip(_)
LStrip(s) == IF Len(s) > 0 /\ White(Ch(s, 1)) THEN LStrip(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF Len(s) > 0 /\ White(Ch(s, Len(s))) THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Cut(s) == LET S == {i \in 2..Len(s) : Ch(s, i) \in {" ", "("}}
          IN IF S = {} THEN s ELSE SubSeq(s, 1, Min(S) - 1)
WordOf(line) == Cut(RStrip(LStrip(line)))
WordsOfLines(lines) ==
    FoldLeft(LAMBDA acc, l : LET w == WordOf(l)
                             IN IF w \in {"", "_", "__", "<UNK>"} \/ w \in RangeOf(acc) THEN acc ELSE Append(acc, w),
             <<>>, lines)
=============================================================================
