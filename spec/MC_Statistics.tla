---------------------------- MODULE MC_Statistics ----------------------------
(* A model grows n-gram by n-gram; contexts get the weight that makes them  *)
(* sum to one; then book-keeping n-grams are added, or one probability is   *)
(* disturbed.                                                               *)
EXTENDS Statistics, Json
CONSTANTS Orders, Size
Ws == {"a", "b", Unk}
VARIABLES m, news, phase, hit
vars == <<m, news, phase, hit>>
\* unigrams: 1/2, 1/4, 1/4
Init == /\ m = [p |-> (<<"a">> :> One \div 2) @@ (<<"b">> :> One \div 4) @@ (<<Unk>> :> One \div 4), w |-> <<>>, inter |-> FALSE]
        /\ news = 0 /\ phase = "grow" /\ hit = <<>>
Contexts(n) == UNION {[1..i -> {"a", "b"}] : i \in 1..n}
\* a context lists words with the given shares (none of the backed-off size)
\* and shares the rest among the others as the shorter context does
List(h, f) ==
    LET listed == DOMAIN f
        rest == One - SumOver(listed, LAMBDA x : f[x])
        lower == One - SumOver(listed, LAMBDA x : LinProb(m, Append(Tail(h), x)))
        w == IF lower = 0 THEN 0 ELSE FDiv(rest \div P13, lower \div P13)
    IN /\ listed # Ws /\ lower > One \div 8 /\ w < 3 * One
       \* what is listed says something
       /\ \A x \in listed : LET q == FMul(w, LinProb(m, Append(Tail(h), x)))
                           IN AbsV(f[x] - q) > MinOf(f[x], q) \div 4
       /\ m' = [m EXCEPT !.p = [g \in {Append(h, x) : x \in listed} |-> f[Last1(g)]] @@ @, !.w = (h :> w) @@ @]
       /\ news' = news + Cardinality(listed)
Grow == /\ phase = "grow" /\ news < Size
        /\ \E h \in Contexts(Orders - 1) :
           /\ h \notin DOMAIN m.w
           \* shorter contexts first, each with all it will list
           /\ \A k \in DOMAIN m.w : Len(k) <= Len(h) /\ Tail(k) # h
           /\ \E S \in (SUBSET Ws) \ {{}} : \E f \in [S -> {One \div 8, (One \div 8) + (One \div 16)}] : List(h, f)
        /\ UNCHANGED <<phase, hit>>
\* n-grams that the tree lacks, with the probability they have anyway
Complete == /\ phase = "grow" /\ phase' = "complete"
            /\ LET L == UNION {Heads(g) : g \in DOMAIN m.p} \cup DOMAIN m.w
               IN m' = [m EXCEPT !.p = TLCEval([g \in L \cup DOMAIN @ |-> IF g \in DOMAIN @ THEN @[g] ELSE LinBo(m, g)])]
            /\ UNCHANGED <<news, hit>>
Disturb == /\ phase = "grow" /\ phase' = "disturbed"
           /\ \E g \in DOMAIN m.p, d \in {One \div 16, -(One \div 16)} :
              m' = [m EXCEPT !.p[g] = @ + d] /\ hit' = g
           /\ UNCHANGED news
Next == Grow \/ Complete \/ Disturb
Spec == Init /\ [][Next]_vars

S == Sizes(m, LAMBDA g : ClassLin(m, g))
\* every context sums to one, also those the model knows nothing of
Normal == phase # "disturbed" => \A h \in Contexts(Orders) : AbsV(Total(m, h) - One) < One \div 1500 /\ ~Fails(Total(m, h))
\* book-keeping is not counted, all else is (unless it could be taken for it)
Counted == phase \in {"grow", "complete"} =>
    LET high == SumOver(DOMAIN S, LAMBDA o : S[o][2])
            low == SumOver(DOMAIN S, LAMBDA o : S[o][1])
    IN high >= 3 + news /\ low <= 3 + news + Cardinality(DOMAIN m.w)
Unseen == phase = "complete" =>
    \A g \in DOMAIN m.p : ClassLin(m, g) = "old" => PW(m, g) = One
NotMore == phase = "complete" =>
    LET added == {g \in DOMAIN m.p : Len(g) > 1 /\ Hist(g) \notin DOMAIN m.w /\ g \notin DOMAIN m.w} IN
    \A g \in added : ClassLin(m, g) # "new"
\* the context that holds the disturbed n-gram fails; one that never comes to it does not
Noticed == phase = "disturbed" =>
    /\ Fails(Total(m, IF Len(hit) = 1 THEN <<"b">> ELSE Hist(hit))) \/ Len(hit) = 1
    /\ \A h \in Contexts(Orders) :
          (\A k \in 0..Len(h) : SubSeq(h, k + 1, Len(h)) # Hist(hit)) => ~Fails(Total(m, h))
Pairs(f) == LET s == SetToSeq(DOMAIN f) IN [i \in DOMAIN s |-> <<s[i], f[s[i]]>>]
Emit == phase = "grow" \/ PrintT("CASE|" \o ToJson([p |-> Pairs(m.p), w |-> Pairs(m.w), phase |-> phase, sizes |-> S,
            sums |-> LET s == SetToSeq(Contexts(Orders)) IN [i \in DOMAIN s |-> <<s[i], Total(m, s[i])>>]]))
=============================================================================
