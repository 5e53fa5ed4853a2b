------------------------------ MODULE MC_Lookup ------------------------------
(* Every small model, and every history it can be asked about.  The values *)
(* are distinct powers of two, so that a sum shows which values are in it. *)
EXTENDS NgramModel, Json
CONSTANTS Words,       \* the words that may form n-grams
          MaxOrder, MaxQuery
VARIABLES m, q
vars == <<m, q>>

OOV == "nowhere"       \* a word no model has
Unk == "<UNK>"
Uni == {<<w>> : w \in Words}
Ext(S) == {Append(h, w) : h \in S, w \in Words}
RECURSIVE Structures(_, _)
\* all prefix-closed sets of n-grams that extend those of S up to order n
Structures(S, n) ==
    IF n = 1 THEN {S}
    ELSE LET longest == {g \in S : Len(g) = Max({Len(x) : x \in S})}
             F == SUBSET Ext(longest)
         IN UNION {IF T = {} THEN {S} ELSE Structures(S \cup T, n - 1) : T \in F}

\* a number for every n-gram and every context, all different
WordNo(w) == CHOOSE i \in 1..Cardinality(Words) : SetToSeq(Words)[i] = w
RECURSIVE Code(_)
Code(g) == IF Len(g) = 0 THEN 0 ELSE Code(Hist(g)) * Cardinality(Words) + WordNo(Last1(g))
Pow2(i) == 2 ^ i
Model(S, B) == [p |-> [g \in S |-> -Pow2(Code(g))] @@ (<<Unk>> :> -Pow2(15)),
                w |-> [h \in B |-> -Pow2(15 + Code(h))]]
MaybeWeights(S) == {h \in S : Len(h) < Max({Len(x) : x \in S}) /\ \E x \in S : Len(x) = Len(h) + 1 /\ Hist(x) = h}
Init == /\ m \in UNION {{Model(S, MaybeWeights(S)), Model(S, {})} : S \in Structures(Uni, MaxOrder)}
        /\ q = <<>>
Say == /\ Len(q) < MaxQuery
       /\ \E w \in Words \cup {OOV} : q' = Append(q, IF w = OOV THEN Unk ELSE w)
       /\ UNCHANGED m
Next == Say
Spec == Init /\ [][Next]_vars
Stay == q = <<>>

Suffixes1(g) == {SubSeq(g, i, Len(g)) : i \in 1..Len(g)}
\* the answer is the longest stored suffix, and only the last words matter
LongestMatch == q # <<>> =>
    LET r == LogBo(m, q, 0) st == Suffixes1(q) \cap DOMAIN m.p
    IN /\ r.ord = Max({Len(x) : x \in st})
       /\ (q \in DOMAIN m.p => r.lp = m.p[q])
       /\ r = LogBo(m, Suffix(q, Order(m)), 0)
Closed == PrefixClosed(m)

(***************************************************************************)
(* Turning an interpolated model into a back-off model: the same n-grams   *)
(* and weights, each n-gram with its complete probability.  Linear values. *)
(***************************************************************************)
Lin(v) == [p |-> [g \in DOMAIN v.p |-> One \div (5 + 3 * Code(SelectSeq(g, LAMBDA x : x # Unk)))],
           w |-> [h \in DOMAIN v.w |-> One \div (1 + Code(h))], inter |-> TRUE]
Complete(v) == [p |-> [g \in DOMAIN v.p |-> LinInt(v, g)], w |-> v.w, inter |-> FALSE]
ConversionKeeps == q # <<>> => LET v == Lin(m) IN AbsV(LinBo(Complete(v), q) - LinInt(v, q)) <= 8

Answers == LET Q == UNION {[1..n -> Words \cup {Unk}] : n \in 1..MaxQuery}
           IN {<<x, LogBo(m, x, 0)>> : x \in Q}
Pairs(f) == SetToSeq({<<g, f[g]>> : g \in DOMAIN f})
Emit == q = <<>> => PrintT("CASE|" \o ToJson([p |-> Pairs(m.p), w |-> Pairs(m.w),
    answers |-> SetToSeq({<<x, LogBo(m, x, 0).lp, LogBo(m, x, 0).ord>> : x \in UNION {[1..n -> Words \cup {Unk}] : n \in 1..MaxQuery}})]))
=============================================================================
