---------------------------- MODULE Vocabulary ----------------------------
(* A vocabulary: words numbered in the order they came, number 0 being the *)
(* one that every unknown word is taken for.  Words are sequences of byte  *)
(* values.                                                                 *)
EXTENDS Naturals, Sequences, FiniteSets
LOCAL INSTANCE FiniteSetsExt
LOCAL INSTANCE SequencesExt

Unk == <<60, 85, 78, 75, 62>>
Fresh == <<Unk>>
Has(v, w) == \E i \in DOMAIN v : v[i] = w
Index(v, w) == IF Has(v, w) THEN (CHOOSE i \in DOMAIN v : v[i] = w) - 1 ELSE 0
Add(v, w) == IF Has(v, w) THEN v ELSE Append(v, w)
\* another name for the unknown word starts a new vocabulary
SetOov(v, w) == IF v[1] = w THEN v ELSE <<w>>

(* Reading a word list, one word per line. *)
Blank(x) == x \in {32, 9, 10, 13}
Open == 40
Strip(l) == LET S == {i \in DOMAIN l : ~Blank(l[i])}
            IN IF S = {} THEN <<>> ELSE SubSeq(l, Min(S), Max(S))
Cuts(s) == {i \in 2..Len(s) : s[i] \in {32, Open}}
\* an opening bracket that ends the line may stay
WordsOf(l) == LET s == Strip(l)
                  c == Cuts(s)
              IN IF c = {} THEN {s}
                 ELSE IF Min(c) = Len(s) THEN {s, SubSeq(s, 1, Len(s) - 1)}
                 ELSE {SubSeq(s, 1, Min(c) - 1)}
Skipped == {<<>>, <<95>>, <<95, 95>>}
\* the vocabularies that may come of reading one more line
AddLine(v, l) == {IF w \in Skipped THEN v ELSE Add(v, w) : w \in WordsOf(l)}
ReadLines(v, ls) == FoldLeft(LAMBDA S, l : UNION {AddLine(x, l) : x \in S}, {v}, ls)
\* the lines of a file; what follows the last line feed is a line of its own
Lines(f) ==
    LET E == {0} \cup {i \in DOMAIN f : f[i] = 10}
        ends == SetToSortSeq(E, <)
        full == [j \in 1..(Len(ends) - 1) |-> SubSeq(f, ends[j] + 1, ends[j + 1] - 1)]
    IN IF Max(E) < Len(f) THEN Append(full, SubSeq(f, Max(E) + 1, Len(f))) ELSE full
Read(v, f) == ReadLines(v, Lines(f))
\* writing it: every word but the unknown one
Written(v) == IF Len(v) <= 1 THEN <<>> ELSE FlattenSeq([i \in 1..(Len(v) - 1) |-> Append(v[i + 1], 10)])

Numbered(v) == \A i \in DOMAIN v : Index(v, v[i]) = i - 1
\* words that a word list can hold
Plain(w) == w \notin Skipped /\ w = Strip(w) /\ Cuts(w) = {} /\ 10 \notin {w[i] : i \in DOMAIN w}
===========================================================================
