-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* Walking over the n-grams of a model.  The n-grams form a tree T (a set  *)
(* of sequences of word numbers, with every prefix of each); a walk is at  *)
(* one of them (<<>> before its first step).                               *)
(*                                                                         *)
(* next        the next n-gram in depth-first order: the smallest in the   *)
(*             order of sequences that is greater than the present one     *)
(* next_order  the next one of a given length                              *)
(* move        to another continuation of the same context, so many on     *)
(* up, down    to the context, and to the first continuation               *)
(*                                                                         *)
(* A step that is not possible says so and leaves the walk where it is;    *)
(* but next and next_order, when there is nothing more, leave it at the    *)
(* last unigram.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC

Cut(g, i) == SubSeq(g, 1, i)
Kids(T, g) == {x \in T : Len(x) = Len(g) + 1 /\ Cut(x, Len(g)) = g}
LastOf(g) == g[Len(g)]
\* the continuations of a context, smallest first
Ranked(T, h) == SetToSortSeq(Kids(T, h), LAMBDA a, b : LastOf(a) < LastOf(b))
LastUni(T) == <<Max({x[1] : x \in {y \in T : Len(y) = 1}})>>

\* before in the order of sequences
Before(a, b) ==
    \/ Len(a) < Len(b) /\ Cut(b, Len(a)) = a
    \/ \E i \in DOMAIN a : i \in DOMAIN b /\ Cut(a, i - 1) = Cut(b, i - 1) /\ a[i] < b[i]
After(T, g) == {x \in T : Before(g, x)}
FirstOf(S) == CHOOSE x \in S : \A y \in S : y = x \/ Before(x, y)

No(at) == [ok |-> FALSE, at |-> at]
Yes(at) == [ok |-> TRUE, at |-> at]
WNext(T, g) == IF After(T, g) = {} THEN No(LastUni(T)) ELSE Yes(FirstOf(After(T, g)))
WNextOrder(T, g, o) ==
    LET S == {x \in After(T, g) : Len(x) = o}
    IN IF S = {} THEN No(LastUni(T)) ELSE Yes(FirstOf(S))
WMove(T, g, d) ==
    LET r == Ranked(T, Front(g))
        i == CHOOSE i \in DOMAIN r : r[i] = g
    IN IF i + d \in DOMAIN r THEN Yes(r[i + d]) ELSE No(g)
WUp(T, g) == IF Len(g) = 1 THEN No(g) ELSE Yes(Front(g))
WDown(T, g) == IF Kids(T, g) = {} THEN No(g) ELSE Yes(Ranked(T, g)[1])
WHas(T, g) == [ok |-> Kids(T, g) # {}, at |-> g]
\* the walk set on an n-gram: its longest prefix there is
WAt(T, g) == Yes(Cut(g, Max({i \in 1..Len(g) : Cut(g, i) \in T})))

\* The same by a list L of the n-grams in that order (X: the place of each).
InOrder(T) == SetToSortSeq(T, Before)
Places(L) == [g \in {L[i] : i \in DOMAIN L} |-> CHOOSE i \in DOMAIN L : L[i] = g]
LNext(L, X, g) ==
    LET i == IF g = <<>> THEN 1 ELSE X[g] + 1
    IN IF i \in DOMAIN L THEN Yes(L[i]) ELSE No(<<Max({L[j][1] : j \in DOMAIN L})>>)
LNextOrder(L, X, g, o) ==
    LET i == IF g = <<>> THEN 0 ELSE X[g]
        S == {j \in (i + 1)..Len(L) : Len(L[j]) = o}
    IN IF S = {} THEN No(<<Max({L[j][1] : j \in DOMAIN L})>>) ELSE Yes(L[Min(S)])

\* one operation <<name, argument>>; move, up, down and has need a place
Step(T, g, op) ==
    CASE op[1] = "next" -> WNext(T, g)
      [] op[1] = "order" -> WNextOrder(T, g, op[2])
      [] op[1] = "move" -> WMove(T, g, op[2])
      [] op[1] = "up" -> WUp(T, g)
      [] op[1] = "down" -> WDown(T, g)
      [] op[1] = "has" -> WHas(T, g)
      [] op[1] = "reset" -> Yes(<<>>)
      [] op[1] = "at" -> WAt(T, op[2])
=============================================================================
