------------------------------- MODULE HeldOut -------------------------------
(***************************************************************************)
(* The held-out optimisation of discounts (-o).                            *)
(*                                                                         *)
(* What is optimised: the mean of minus the decimal logarithm of the       *)
(* smoothed probability over the known words of the held-out text.  Words  *)
(* outside the vocabulary are not scored but do stand in the histories of  *)
(* others; with clear-history a sentence start is not scored either and    *)
(* begins a new history, otherwise histories run on from one sentence into *)
(* the next.                                                               *)
(*                                                                         *)
(* Every smoothed probability is linear in each single discount, so the    *)
(* measure is convex along each of them: what the search may rely on.      *)
(***************************************************************************)
EXTENDS KNProb

Known(words, w) == w \in words
HWord(words, w) == IF w \in words THEN w ELSE "<UNK>"
\* the window of position i: its word and what stands before it
HWindow(dev, words, i, n, clear) ==
    LET S == IF clear THEN {j \in 1..i : dev[j] = SentStart /\ SentStart \in words} ELSE {}
        a == MaxOf(i - n + 1, IF S = {} THEN 1 ELSE Max(S))
    IN [j \in 1..(i - a + 1) |-> HWord(words, dev[a + j - 1])]
HScored(dev, words, clear) ==
    {i \in DOMAIN dev : dev[i] \in words /\ ~(clear /\ dev[i] = SentStart)}
\* the windows that are scored, with multiplicity: a sequence
HWindows(dev, words, n, clear) ==
    LET G == HScored(dev, words, clear)
    IN [x \in 1..Cardinality(G) |->
           LET i == CHOOSE i \in G : Cardinality({j \in G : j <= i}) = x
           IN HWindow(dev, words, i, n, clear)]
(***************************************************************************)
(* The measure in units of 1e-5, the tolerance to which fixed-point        *)
(* numbers know it (err: in units of 2^-26), and whether they do at all.   *)
(***************************************************************************)
Measure(st, disc, V, W, err) ==
    LET P == TLCEval([x \in DOMAIN W |-> PTable(st, disc, W[x], V)])
        sum == FoldSet(LAMBDA x, a : a - ToLog10(FLog2(P[x])), 0, DOMAIN W)
        tol == FoldSet(LAMBDA x, a : a + 1 + (err * 434294) \div P[x], 0, DOMAIN W)
    IN IF \E x \in DOMAIN W : P[x] <= 2000 THEN [ok |-> FALSE, value |-> 0, tol |-> 0]
       ELSE [ok |-> TRUE, value |-> sum \div Len(W), tol |-> 4 + tol \div Len(W)]

(***************************************************************************)
(* The search along one discount: a range l1 < l2 < l3 of which l2 is the  *)
(* best point so far.  First the range is moved until its middle is no     *)
(* worse than its ends (or a limit is met); then it is narrowed: where the *)
(* middle is strictly better than both ends any other point inside may be  *)
(* probed (the code takes the minimum of a parabola, or a point close to   *)
(* the middle), else it is halved.                                         *)
(***************************************************************************)
SWiden(r, f, low, high) ==      \* r: [l1, l2, l3]; f: the measure along it
    IF f[r.l1] < f[r.l2]
    THEN LET a == MaxOf(low, r.l2 - 2 * (r.l2 - r.l1))
         IN IF a = r.l1 THEN r ELSE [l1 |-> a, l2 |-> r.l1, l3 |-> r.l2]
    ELSE IF f[r.l3] < f[r.l2]
    THEN LET b == MinOf(high, r.l2 + 2 * (r.l3 - r.l2))
         IN IF b = r.l3 THEN r ELSE [l1 |-> r.l2, l2 |-> r.l3, l3 |-> b]
    ELSE r
SValley(r, f) == f[r.l2] < f[r.l1] /\ f[r.l2] < f[r.l3]
SHalve(r, f) ==
    LET a == IF f[r.l2] >= f[r.l3] THEN r.l2 ELSE r.l1
        b == IF f[r.l2] >= f[r.l3] THEN r.l3 ELSE r.l2
    IN [l1 |-> a, l2 |-> a + (b - a) \div 2, l3 |-> b]
SProbe(r, f, l) ==
    IF l > r.l2
    THEN IF f[l] >= f[r.l2] THEN [r EXCEPT !.l3 = l] ELSE [r EXCEPT !.l1 = r.l2, !.l2 = l]
    ELSE IF f[l] >= f[r.l2] THEN [r EXCEPT !.l1 = l] ELSE [r EXCEPT !.l3 = r.l2, !.l2 = l]
=============================================================================
