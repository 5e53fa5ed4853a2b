------------------------------ MODULE KNCounts ------------------------------
(***************************************************************************)
(* The count state of a Kneser-Ney / absolute discounting model and how    *)
(* training changes it:                                                    *)
(*   Read    - one token of the training text is consumed,                 *)
(*   Estimate- one order is finished: its denominators are summed and its  *)
(*             contribution to the next lower order is made,               *)
(*   Classes - the numbers of distinct continuations are tabulated,        *)
(*   Prune   - a set of n-grams of one order is taken out and the mass is  *)
(*             handed to the back-off of its context,                      *)
(*   Grow    - all continuations of one context are added (varigram).      *)
(*                                                                         *)
(* Words are arbitrary values (strings in traces).  "cnt" maps an n-gram   *)
(* of any order to its count; "bo" maps a context to the record            *)
(*   [den, nz1, nz2, nz3, pruned].                                         *)
(***************************************************************************)
EXTENDS Grams

SentStart == "<s>"

NoBo == [den |-> 0, nz1 |-> 0, nz2 |-> 0, nz3 |-> 0, pruned |-> 0]
GetBo(b, h) == IF h \in DOMAIN b THEN b[h] ELSE NoBo
SetBo(b, h, r) == (h :> r) @@ b
NormBo(b) == [h \in {j \in DOMAIN b : b[j].den # 0 \/ j = <<>>} |-> b[h]]

Class(c) == IF c >= 3 THEN 3 ELSE c
AddNz(r, cl, x) == CASE cl = 1 -> [r EXCEPT !.nz1 = @ + x]
                     [] cl = 2 -> [r EXCEPT !.nz2 = @ + x]
                     [] cl = 3 -> [r EXCEPT !.nz3 = @ + x]
                     [] OTHER -> r

GramsOf(c, o) == {g \in DOMAIN c : Len(g) = o /\ c[g] # 0}
MaxOrder(c) == IF DOMAIN c = {} THEN 0 ELSE Max({Len(g) : g \in DOMAIN c})

(***************************************************************************)
(* Reading one token.  The window holds the last n tokens; with            *)
(* clear-history a sentence start empties it first.  Exactly one count is  *)
(* made per token, for the whole window: lower orders are filled only near *)
(* the beginning of the text (or of the sentence).                         *)
(***************************************************************************)
NextWindow(win, w, n, clear) ==
    LET v == IF clear /\ w = SentStart THEN <<>> ELSE win
    IN IF Len(v) < n THEN Append(v, w) ELSE Append(Tail(v), w)

(***************************************************************************)
(* Finishing order o: denominators, and the contribution to order o-1.     *)
(* In Kneser-Ney every distinct n-gram contributes 1 to the n-gram with    *)
(* its oldest word dropped; in absolute discounting it contributes its     *)
(* count.                                                                  *)
(***************************************************************************)
EstimateOrder(c, b, o, absolute) ==
    LET G == GramsOf(c, o)
        H == {Hist(g) : g \in G}
        T == IF o > 1 THEN {Drop1(g) : g \in G} ELSE {}
        inc(t) == SumOver({g \in G : Drop1(g) = t},
                          LAMBDA g : IF absolute THEN c[g] ELSE MinOf(c[g], 1))
        den(h) == SumOver({g \in G : Hist(g) = h}, LAMBDA g : c[g])
    IN [c |-> [t \in T |-> Get(c, t) + inc(t)] @@ c,
        b |-> [h \in H |-> [GetBo(b, h) EXCEPT !.den = @ + den(h)]] @@ b]

ClassesOf(c, b) ==
    LET G == {g \in DOMAIN c : c[g] # 0}
        H == {Hist(g) : g \in G}
        n(h, k) == Cardinality({g \in G : Hist(g) = h /\ Class(c[g]) = k})
    IN [h \in H |-> [GetBo(b, h) EXCEPT !.nz1 = n(h, 1), !.nz2 = n(h, 2), !.nz3 = n(h, 3)]] @@ b

(***************************************************************************)
(* Taking one n-gram out.  Its mass goes to the back-off of its context;   *)
(* when the context loses its last continuation the context is forgotten.  *)
(* In Kneser-Ney the lower-order n-gram had been credited with 1 instead   *)
(* of the count; that correction is undone - when that n-gram exists.      *)
(***************************************************************************)
PruneOne(s, g, adjust) ==
    LET num == s.c[g]
        h == Hist(g)
        r0 == GetBo(s.b, h)
        r1 == IF r0.den = r0.pruned + num
              THEN [r0 EXCEPT !.den = 0, !.pruned = 0]
              ELSE [r0 EXCEPT !.pruned = @ + num]
        b1 == SetBo(s.b, h, AddNz(r1, Class(num), -1))
        c1 == (g :> 0) @@ s.c
        t == Drop1(g)
        old == Get(c1, t)
    IN IF adjust /\ num # 1 /\ old # 0
       THEN LET ht == Hist(t)
                q0 == GetBo(b1, ht)
                q1 == [q0 EXCEPT !.den = @ + num - 1]
                q2 == AddNz(AddNz(q1, Class(old), -1), Class(old + num - 1), 1)
            IN [c |-> (t :> (old + num - 1)) @@ c1, b |-> SetBo(b1, ht, q2)]
       ELSE [c |-> c1, b |-> b1]

\* adjust is an operator on the n-gram's count: are its lower orders restored?
PruneSet(s, S, adjust(_)) ==
    FoldSet(LAMBDA g, acc : PruneOne(acc, g, adjust(s.c[g])), s, S)

(***************************************************************************)
(* Growing: all continuations of context h seen in the data enter at once. *)
(* conts maps each continuation word to its number of occurrences after h. *)
(***************************************************************************)
GrowOne(s, g, val, absolute) ==
    LET h == Hist(g)
        r0 == GetBo(s.b, h)
        r1 == AddNz([r0 EXCEPT !.den = @ + val], Class(val), 1)
        c1 == Bump(s.c, g, val)
        b1 == SetBo(s.b, h, r1)
        t == Drop1(g)
        old == Get(c1, t)
    IN IF ~absolute /\ val > 1 /\ old # 0
       THEN LET ht == Hist(t)
                q0 == GetBo(b1, ht)
                q1 == [q0 EXCEPT !.den = @ - (val - 1)]
                q2 == AddNz(AddNz(q1, Class(old), -1), Class(old - (val - 1)), 1)
            IN [c |-> (t :> (old - (val - 1))) @@ c1, b |-> SetBo(b1, ht, q2)]
       ELSE [c |-> c1, b |-> b1]

GrowHist(s, h, conts, absolute) ==
    FoldSet(LAMBDA w, acc : GrowOne(acc, Append(h, w), conts[w], absolute), s, DOMAIN conts)

(***************************************************************************)
(* Mass conservation.  For whatever discounts D1, D2, D3, the probability  *)
(* of a word is (c - D)/den and the interpolation weight of the context is *)
(* (nz1*D1 + nz2*D2 + nz3*D3 + pruned)/den, so these two integer facts say *)
(* that every conditional distribution of the model sums to one.           *)
(***************************************************************************)
MassAt(s, h) ==
    LET G == {g \in DOMAIN s.c : Len(g) = Len(h) + 1 /\ Hist(g) = h /\ s.c[g] # 0}
        r == GetBo(s.b, h)
        n(k) == Cardinality({g \in G : Class(s.c[g]) = k})
    IN /\ r.den = SumOver(G, LAMBDA g : s.c[g]) + r.pruned
       /\ r.nz1 = n(1) /\ r.nz2 = n(2) /\ r.nz3 = n(3)
       /\ r.pruned >= 0
       /\ \A g \in G : s.c[g] > 0

ContextsOf(s) == DOMAIN s.b \cup {Hist(g) : g \in {x \in DOMAIN s.c : s.c[x] # 0}}
MassOK(s) == \A h \in ContextsOf(s) : MassAt(s, h)
=============================================================================
