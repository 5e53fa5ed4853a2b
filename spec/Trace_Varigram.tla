-------------------------- MODULE Trace_Varigram --------------------------
(* Trace validation of varigram_kn.  A case holds the training text and    *)
(* two observations of the same run: the model as grown (pruning turned    *)
(* off by a huge size target) and, if asked for, as pruned afterwards.     *)
EXTENDS KNProb, VocabSel, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES k, phase, pos, win, raw, c, b, o,
          disc,    \* the discounts of every order
          rec      \* the observed tables
vars == <<k, phase, pos, win, raw, c, b, o, disc, rec>>
C == Cases[k]

InVocab == CASE C.vocabmode = "given" -> RangeOf(WordsOfLines(C.vocab))
             [] C.vocabmode = "select" -> RangeOf(C.words)
             [] OTHER -> {}
Word(w) == IF C.vocabmode # "grow" /\ w \notin InVocab THEN "<UNK>" ELSE w

ToMap(s) == [g \in {s[i][1] : i \in DOMAIN s} |-> LET i == CHOOSE i \in DOMAIN s : s[i][1] = g IN s[i][2]]
Observed == [grown |-> ToMap(C.grown), grownbos |-> ToMap(C.grownbos),
             final |-> ToMap(C.final), finalbos |-> ToMap(C.finalbos),
             maxlen |-> Max({Len(C.grown[i][1]) : i \in DOMAIN C.grown} \cup {1})]
Grown == rec.grown
GrownBos == rec.grownbos
Final == rec.final
FinalBos == rec.finalbos
MaxLen == rec.maxlen

Init == /\ k \in DOMAIN Cases
        /\ phase = "read" /\ pos = 1 /\ win = <<>> /\ raw = Empty /\ c = Empty /\ b = <<>> :> NoBo /\ o = 1 /\ disc = <<>> /\ rec = Observed

\* one token: it ends one n-gram of every order that fits
Read == /\ phase = "read" /\ pos <= Len(C.text)
        /\ LET v == NextWindow(win, Word(C.text[pos]), MaxLen, C.clear)
               S == {SubSeq(v, i, Len(v)) : i \in 1..Len(v)}
           IN win' = v /\ raw' = [g \in S |-> Get(raw, g) + 1] @@ raw
        /\ pos' = pos + 1 /\ UNCHANGED <<k, phase, c, b, o, disc, rec>>
\* the unigram model it starts from
Start == /\ phase = "read" /\ pos > Len(C.text)
         /\ LET U == {g \in DOMAIN raw : Len(g) = 1}
                n(x) == Cardinality({g \in U : Class(raw[g]) = x})
            IN /\ c' = [g \in U |-> raw[g]]
               /\ b' = <<>> :> [den |-> SumOver(U, LAMBDA g : raw[g]), nz1 |-> n(1), nz2 |-> n(2), nz3 |-> n(3), pruned |-> 0]
         /\ phase' = "grow" /\ UNCHANGED <<k, pos, win, raw, o, disc, rec>>
(* Which contexts are grown is the program's choice (a description length); *)
(* what growing one does is not: every continuation enters.                 *)
Contexts(n) == {h \in {Hist(g) : g \in DOMAIN Grown} : Len(h) = n}
Conts(h) == LET S == {g \in DOMAIN raw : Len(g) = Len(h) + 1 /\ Hist(g) = h}
            IN [w \in {Last1(g) : g \in S} |-> raw[Append(h, w)]]
Grow == /\ phase = "grow" /\ o < MaxLen
        /\ LET r == FoldSet(LAMBDA h, acc : GrowHist(acc, h, Conts(h), C.absolute), [c |-> c, b |-> b], Contexts(o))
           IN /\ c' = r.c /\ b' = r.b
              /\ phase' = IF \E h \in Contexts(o) : Get(c, h) = 0 THEN "orphan" ELSE phase
        /\ o' = o + 1 /\ UNCHANGED <<k, pos, win, raw, disc, rec>>
(* Discounts: those of an order are estimated once no context of that      *)
(* length can grow any more; an order that is never extended because of the *)
(* maximum keeps the initial ones.                                         *)
Discounts(st) ==
    LET init == IF C.three THEN <<Dinit, Dinit, Dinit>> ELSE <<Dinit>>
        last == IF C.maxorder > 0 THEN MinOf(MaxLen, C.maxorder - 1) ELSE MaxLen
        forced == FDiv(C.force, 10000)
    IN [x \in 1..MaxLen |->
          IF C.force >= 0 THEN (IF C.three THEN <<forced, forced, forced>> ELSE <<forced>>)
          ELSE IF x > last THEN init
          ELSE IF C.three THEN LooThree(st.c, x, init) ELSE LooOne(st.c, x, init)]
\* with cleared history the sentence start is never predicted
NoStart == /\ phase = "grow" /\ o >= MaxLen
           /\ LET v == Get(c, <<SentStart>>)
                  r == [GetBo(b, <<>>) EXCEPT !.den = @ - v]
              IN IF C.clear /\ v > 0
                 THEN c' = Norm((<<SentStart>> :> 0) @@ c) /\ b' = SetBo(b, <<>>, AddNz(r, Class(v), -1))
                 ELSE c' = Norm(c) /\ b' = b
           /\ disc' = Discounts([c |-> c, b |-> b])
           /\ phase' = "grown" /\ UNCHANGED <<k, pos, win, raw, o, rec>>

BoView(r) == IF C.three THEN <<r.nz1, r.nz2, r.nz3, r.den, r.pruned>>
             ELSE <<r.nz1 + r.nz2 + r.nz3, r.den, r.pruned>>
ExpBos == LET B == NormBo(b) IN [h \in DOMAIN B |-> BoView(B[h])]
Same(rc, rb, what) ==
    LET nc == Norm(c) eb == ExpBos IN
    IF DOMAIN nc # DOMAIN rc THEN what \o ": n-gram sets differ: " \o ToString((DOMAIN nc \ DOMAIN rc) \cup (DOMAIN rc \ DOMAIN nc))
    ELSE IF nc # rc THEN what \o ": count of " \o ToString(CHOOSE g \in DOMAIN nc : nc[g] # rc[g])
    ELSE IF DOMAIN eb # DOMAIN rb THEN what \o ": contexts differ: " \o ToString((DOMAIN eb \ DOMAIN rb) \cup (DOMAIN rb \ DOMAIN eb))
    ELSE IF eb # rb THEN what \o ": back-off of " \o ToString(CHOOSE h \in DOMAIN eb : eb[h] # rb[h])
    ELSE IF ~MassOK([c |-> c, b |-> b]) THEN what \o ": mass"
    ELSE ""
VocabBad == CASE C.vocabmode = "grow" -> C.words # FirstSeenFrom(IF C.clear THEN <<"<s>">> ELSE <<>>, C.text)
              [] C.vocabmode = "given" -> C.words # WordsOfLines(C.vocab)
              [] OTHER -> ~SelectOK(C.text, C.words, C.nfirst, C.ndrop)
GrownDiff == IF VocabBad THEN "vocabulary"
             ELSE IF C.maxorder > 0 /\ MaxLen > C.maxorder THEN "order above the maximum"
             ELSE Same(Grown, GrownBos, "grown")

Cutoff == IF Len(C.cutoffs) = 0 THEN 0
          ELSE IF o > Len(C.cutoffs) THEN C.cutoffs[Len(C.cutoffs)] ELSE C.cutoffs[o]
HasUnk(g) == \E i \in DOMAIN g : g[i] = "<UNK>"
Check == /\ phase = "grown" /\ GrownDiff = "" /\ C.pruned
         /\ phase' = "prune" /\ o' = MaxLen /\ UNCHANGED <<k, pos, win, raw, c, b, disc, rec>>
Prune == /\ phase = "prune" /\ o >= 2
         /\ LET gone == {g \in GramsOf(c, o) : g \notin DOMAIN Final}
                r == PruneSet([c |-> c, b |-> b], gone, LAMBDA n : ~C.absolute)
                must == {g \in GramsOf(c, o) : c[g] <= Cutoff \/ (C.dropunk /\ HasUnk(g))}
            IN /\ c' = r.c /\ b' = r.b
               /\ phase' = IF must \subseteq gone THEN phase ELSE "kept-cutoff"
         /\ o' = o - 1 /\ UNCHANGED <<k, pos, win, raw, disc, rec>>
FileText == LET d == IF Len(C.arpa) = 0 THEN "" ELSE FileDiff([c |-> c, b |-> b], disc, C.words, C.arpa, C.form, C.full)
            IN IF d = "" THEN "ok" ELSE d
Text == CASE phase = "orphan" -> "a context was grown that is no n-gram of the model"
          [] phase = "kept-cutoff" -> "an n-gram that must go survived"
          [] phase = "grown" -> (IF GrownDiff = "" THEN FileText ELSE GrownDiff)
          [] OTHER -> LET d == Same(Final, FinalBos, "pruned") IN IF d = "" THEN FileText ELSE d
Verdict == /\ \/ phase \in {"orphan", "kept-cutoff"}
              \/ phase = "grown" /\ (GrownDiff # "" \/ ~C.pruned)
              \/ phase = "prune" /\ o < 2
           /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o Text)
           /\ phase' = "end" /\ UNCHANGED <<k, pos, win, raw, c, b, o, disc, rec>>
Next == Read \/ Start \/ Grow \/ NoStart \/ Check \/ Prune \/ Verdict
Spec == Init /\ [][Next]_vars
Mass == phase \in {"grow", "grown", "prune"} => MassOK([c |-> c, b |-> b])
=============================================================================
