------------------------------ MODULE ModelFile ------------------------------
(* Model files and the representations they are read into and written      *)
(* from.  File content:                                                    *)
(*   inter : interpolated?      vocab : the words, in the file's order     *)
(*   rows  : sequence of [g |-> n-gram, p |-> value, w |-> weight]         *)
(* NoW stands for an absent weight.                                        *)
EXTENDS NgramModel
NoW == 2000000000
Unk == "<UNK>"
Ord(rows, n) == SelectSeq(rows, LAMBDA r : Len(r.g) = n)
FileOrder(rows) == Max({Len(rows[i].g) : i \in DOMAIN rows})
Grams1(rows) == {rows[i].g : i \in DOMAIN rows}

(***************************************************************************)
(* The prefix tree.  The unknown word is word 0 whether listed or not; the *)
(* other words follow in the order of the file.                            *)
(***************************************************************************)
TreeVocab(v) == <<Unk>> \o SelectSeq(v, LAMBDA w : w # Unk)
\* position of each word
Index(v) == [w \in RangeOf(v) |-> CHOOSE i \in DOMAIN v : v[i] = w]
Before(ix, g, h) == \* g, h of the same length
    \E i \in DOMAIN g : /\ ix[g[i]] < ix[h[i]] /\ \A j \in 1..(i-1) : g[j] = h[j]
InOrder(ix, rows) == SortSeq(rows, LAMBDA a, b : Len(a.g) < Len(b.g) \/ (Len(a.g) = Len(b.g) /\ Before(ix, a.g, b.g)))
ReadTree(f, unlisted) ==
    LET v == TreeVocab(f.vocab)
        add == IF <<Unk>> \in Grams1(f.rows) THEN <<>> ELSE <<[g |-> <<Unk>>, p |-> unlisted, w |-> NoW]>>
        rows == [i \in 1..Len(f.rows) |-> [f.rows[i] EXCEPT !.w = IF @ = NoW THEN 0 ELSE @]]
    IN [inter |-> f.inter, vocab |-> v,
        rows |-> InOrder(Index(v), rows \o [i \in DOMAIN add |-> [add[i] EXCEPT !.w = 0]])]
HasNext(rows, g) == \E i \in DOMAIN rows : Len(rows[i].g) = Len(g) + 1 /\ Hist(rows[i].g) = g
\* what a tree looks like on paper: weights only where longer n-grams follow
WriteTree(t) == [t EXCEPT !.rows = [i \in DOMAIN @ |-> IF HasNext(t.rows, @[i].g) THEN @[i] ELSE [@[i] EXCEPT !.w = NoW]]]

(***************************************************************************)
(* The hash.  It keeps no impossible n-grams and no weights that are one;  *)
(* an n-gram is written if it has either.                                  *)
(***************************************************************************)
ReadHash(f, least) ==
    LET keep == SelectSeq(f.rows, LAMBDA r : r.p > least \/ (r.w # NoW /\ r.w # 0))
    IN [inter |-> f.inter, vocab |-> TreeVocab(f.vocab),
        rows |-> [i \in DOMAIN keep |-> [keep[i] EXCEPT !.p = IF @ > least THEN @ ELSE least,
                                                        !.w = IF @ = 0 THEN NoW ELSE @]]]
\* hashes have no order of their own
SameRows(a, b) == Len(a) = Len(b) /\ RangeOf(a) = RangeOf(b) /\ Cardinality(RangeOf(a)) = Len(a)
CountsOf(rows, n) == [i \in 1..n |-> Len(Ord(rows, i))]
=============================================================================
