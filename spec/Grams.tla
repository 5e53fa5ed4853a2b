------------------------------- MODULE Grams -------------------------------
(* Sparse maps from n-grams (sequences of words) to numbers, and the       *)
(* vocabulary of small helpers shared by all varikn specifications.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

\* A sparse map: absent keys read as 0.
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0

\* Add x to key k.  (k :> v @@ f gives k priority.)
Bump(f, k, x) == (k :> (Get(f, k) + x)) @@ f

\* Forget keys that read as the default.
Norm(f) == [k \in {j \in DOMAIN f : f[j] # 0} |-> f[k]]

Empty == [x \in {} |-> 0]

Hist(g) == SubSeq(g, 1, Len(g) - 1)     \* the context of an n-gram
Last1(g) == g[Len(g)]                   \* the predicted word
Drop1(g) == Tail(g)                     \* the n-gram with its oldest word dropped

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
AbsV(a) == IF a < 0 THEN -a ELSE a

SumOver(S, op(_)) == FoldSet(LAMBDA x, acc : acc + op(x), 0, S)

RangeOf(s) == {s[i] : i \in DOMAIN s}
=============================================================================
