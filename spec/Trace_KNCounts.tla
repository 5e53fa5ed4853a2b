-------------------------- MODULE Trace_KNCounts --------------------------
(* Trace validation of training runs of the real programs (counts2kn).     *)
(* A case holds the training text, the options, and the count tables and   *)
(* vocabulary the program wrote.  The specification's own actions are run  *)
(* on the text; the run is accepted when they end in the recorded tables.  *)
EXTENDS KNProb, VocabSel, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES k, phase, pos, win, c, b, o, todo, disc,
          rec      \* the observed tables
vars == <<k, phase, pos, win, c, b, o, todo, disc, rec>>
C == Cases[k]

\* words outside a restricted vocabulary are read as the unknown word
\* (when the program selects the vocabulary, by the one it selected)
InVocab == CASE C.vocabmode = "given" -> RangeOf(WordsOfLines(C.vocab))
             [] C.vocabmode = "select" -> RangeOf(C.words)
             [] OTHER -> {}
Word(w) == IF C.vocabmode # "grow" /\ w \notin InVocab THEN "<UNK>" ELSE w

ObsCounts == [g \in {C.counts[i][1] : i \in DOMAIN C.counts} |->
                 LET i == CHOOSE i \in DOMAIN C.counts : C.counts[i][1] = g IN C.counts[i][2]]
ObsBos == [h \in {C.bos[i][1] : i \in DOMAIN C.bos} |->
                 LET i == CHOOSE i \in DOMAIN C.bos : C.bos[i][1] = h IN C.bos[i][2]]
RecCounts == rec.c
RecBos == rec.b

(* A run may also start from count files: a file of finished tables        *)
(* ("counts"; numbers of continuations are the ones of the counts), or one *)
(* with the n-grams of the highest order only ("highest": entries for the  *)
(* same n-gram add up, and the lower orders are still to be estimated).    *)
Start(from) ==
    IF from = "text" THEN [c |-> Empty, b |-> <<>> :> NoBo, phase |-> "read"]
    ELSE IF from = "highest"
    THEN [c |-> [g \in {C.cin[i][1] : i \in DOMAIN C.cin} |->
                    SumOver({i \in DOMAIN C.cin : C.cin[i][1] = g}, LAMBDA i : C.cin[i][2])],
          b |-> <<>> :> NoBo, phase |-> "est"]
    ELSE LET t == TLCEval([g \in {C.cin[i][1] : i \in DOMAIN C.cin} |->
                    LET i == CHOOSE i \in DOMAIN C.cin : C.cin[i][1] = g IN C.cin[i][2]])
             m(h) == LET i == CHOOSE i \in DOMAIN C.bin : C.bin[i][1] = h
                         v == C.bin[i][2]
                     IN [NoBo EXCEPT !.den = v[Len(v) - 1], !.pruned = v[Len(v)]]
             bb == TLCEval([h \in {C.bin[i][1] : i \in DOMAIN C.bin} |-> m(h)])
         IN [c |-> t, b |-> TLCEval(ClassesOf(t, bb)), phase |-> IF C.pruned THEN "prune" ELSE "done"]

Init == /\ k \in DOMAIN Cases
        /\ LET st == Start(C.from) IN
              /\ phase = st.phase /\ c = st.c /\ b = st.b
              /\ disc = IF C.from = "counts" /\ (C.decide \/ Len(C.arpa) > 0) THEN LooDisc(st.c, C.n, C.three) ELSE <<>>
              /\ todo = IF C.from = "counts" THEN GramsOf(st.c, C.n) ELSE {}
        /\ pos = 1 /\ win = <<>>
        /\ o = C.n /\ rec = [c |-> ObsCounts, b |-> ObsBos]

Read == /\ phase = "read" /\ pos <= Len(C.text)
        /\ LET v == NextWindow(win, Word(C.text[pos]), C.n, C.clear)
           IN win' = v /\ c' = Bump(c, v, 1)
        /\ pos' = pos + 1 /\ UNCHANGED <<k, phase, b, o, todo, disc, rec>>
EndOfText == /\ phase = "read" /\ pos > Len(C.text) /\ phase' = "est"
             /\ UNCHANGED <<k, pos, win, c, b, o, todo, disc, rec>>
Estimate == /\ phase = "est" /\ o >= 1
            /\ LET r == EstimateOrder(c, b, o, C.absolute) IN c' = r.c /\ b' = r.b
            /\ o' = o - 1 /\ UNCHANGED <<k, phase, pos, win, todo, disc, rec>>
Classes == /\ phase = "est" /\ o = 0
           /\ b' = ClassesOf(c, b) /\ c' = Norm(c) /\ o' = C.n
           /\ phase' = IF C.pruned THEN "prune" ELSE "done"
           /\ disc' = IF C.decide \/ Len(C.arpa) > 0 THEN LooDisc(c, C.n, C.three) ELSE <<>>
           /\ todo' = GramsOf(c, C.n)
           /\ UNCHANGED <<k, pos, win, rec>>

(* Pruning an order: which n-grams beyond the mandatory ones go is the     *)
(* program's choice (a floating-point score); what the tables become once  *)
(* they are gone is not.                                                   *)
Cutoff == IF Len(C.cutoffs) = 0 THEN 0
          ELSE IF o > Len(C.cutoffs) THEN C.cutoffs[Len(C.cutoffs)] ELSE C.cutoffs[o]
HasUnk(g) == \E i \in DOMAIN g : g[i] = "<UNK>"
Must == {g \in GramsOf(c, o) : c[g] <= Cutoff \/ (C.dropunk /\ HasUnk(g))}
Survives(g) == g \in DOMAIN RecCounts
Prune == /\ phase = "prune" /\ o >= 2 /\ ~C.decide
         /\ LET gone == {g \in GramsOf(c, o) : ~Survives(g)}
                adj(n) == ~C.absolute /\ ~(C.discard /\ n <= Cutoff)
                r == PruneSet([c |-> c, b |-> b], gone, adj)
            IN /\ phase' = IF \E g \in Must : Survives(g) THEN "kept-cutoff" ELSE phase
               /\ c' = r.c /\ b' = r.b
         /\ o' = o - 1 /\ UNCHANGED <<k, pos, win, todo, disc, rec>>

(* On small runs the choice is decided too: the n-grams of an order are    *)
(* visited in some order (the hash table's, which is not observed), and    *)
(* each goes when taking it out costs no more than the threshold.          *)
V == Len(C.words) + 1
NoLog == -13062000
LogP(st, g) == LET p == PTable(st, disc, g, V) IN IF p <= 0 THEN NoLog ELSE FLog2(p)
Occurrences(g) == Cardinality({i \in 1..(Len(C.text) - Len(g) + 1) :
                     \A j \in 1..Len(g) : Word(C.text[i + j - 1]) = g[j]})
\* threshold (units of 1e-5, below 2) times (log2 V + 20), in units of 2^-16
Threshold == LET L == 20 * 65536 + FLog2(FDiv(V, 16384)) + 14 * 65536
             IN FMul(FDiv(C.thr, 100000), L * 32) \div 32
ToLog10Q(x) == LET m == AbsV(x) v == (m \div 4096) * 1233 + ((m % 4096) * 1233) \div 4096
               IN IF x < 0 THEN -v ELSE v
Visit == /\ phase = "prune" /\ o >= 2 /\ C.decide
         /\ \E g \in todo :
              LET st == [c |-> c, b |-> b]
                  num == c[g]
                  forced == g \in Must
                  s1 == PruneOne(st, g, ~C.absolute /\ ~(C.discard /\ num <= Cutoff))
                  mult == IF C.real THEN Occurrences(g) ELSE num
                  delta == mult * ToLog10Q(LogP(st, g) - LogP(s1, g))
                  tol == 40 + 20 * mult
              IN /\ todo' = todo \ {g}
                 /\ \/ /\ Survives(g) /\ ~forced /\ delta >= Threshold - tol
                       /\ UNCHANGED <<c, b>>
                    \/ /\ ~Survives(g) /\ (forced \/ delta <= Threshold + tol)
                       /\ c' = Norm(s1.c) /\ b' = s1.b
         /\ UNCHANGED <<k, phase, pos, win, o, disc, rec>>
VisitDone == /\ phase = "prune" /\ o >= 2 /\ C.decide /\ todo = {}
             /\ o' = o - 1 /\ todo' = IF o > 2 THEN GramsOf(c, o - 1) ELSE {}
             /\ UNCHANGED <<k, phase, pos, win, c, b, disc, rec>>
PruneDone == phase = "prune" /\ o < 2 /\ phase' = "done" /\ UNCHANGED <<k, pos, win, c, b, o, todo, disc, rec>>

BoView(r) == IF C.three THEN <<r.nz1, r.nz2, r.nz3, r.den, r.pruned>>
             ELSE <<r.nz1 + r.nz2 + r.nz3, r.den, r.pruned>>
ExpBos == LET B == NormBo(b) IN [h \in DOMAIN B |-> BoView(B[h])]

FirstSeen == FirstSeenFrom(IF C.clear THEN <<"<s>">> ELSE <<>>, C.text)
ArpaDiff == FileDiff([c |-> c, b |-> b], disc, C.words, C.arpa, C.form, TRUE)
Diff == LET nc == Norm(c) eb == ExpBos IN
        IF phase = "kept-cutoff" THEN "an n-gram that must go survived"
        ELSE IF C.vocabmode = "grow" /\ C.words # FirstSeen THEN "vocabulary"
        ELSE IF C.vocabmode = "given" /\ C.words # WordsOfLines(C.vocab) THEN "vocabulary"
        ELSE IF C.vocabmode = "select" /\ ~SelectOK(C.text, C.words, C.nfirst, C.ndrop) THEN "vocabulary"
        ELSE IF DOMAIN nc # DOMAIN RecCounts
             THEN "n-gram sets differ: " \o ToString((DOMAIN nc \ DOMAIN RecCounts) \cup (DOMAIN RecCounts \ DOMAIN nc))
        ELSE IF nc # RecCounts
             THEN "count of " \o ToString(CHOOSE g \in DOMAIN nc : nc[g] # RecCounts[g])
        ELSE IF DOMAIN eb # DOMAIN RecBos
             THEN "contexts differ: " \o ToString((DOMAIN eb \ DOMAIN RecBos) \cup (DOMAIN RecBos \ DOMAIN eb))
        ELSE IF eb # RecBos
             THEN "back-off of " \o ToString(CHOOSE h \in DOMAIN eb : eb[h] # RecBos[h])
        ELSE IF ~MassOK([c |-> c, b |-> b]) THEN "mass"
        ELSE IF Len(C.arpa) > 0 /\ ArpaDiff # "" THEN ArpaDiff
        ELSE "ok"
Verdict == /\ phase \in {"done", "kept-cutoff"}
           /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o Diff)
           /\ phase' = "end" /\ UNCHANGED <<k, pos, win, c, b, o, todo, disc, rec>>
Next == Read \/ EndOfText \/ Estimate \/ Classes \/ Prune \/ Visit \/ VisitDone \/ PruneDone \/ Verdict
Spec == Init /\ [][Next]_vars

\* the invariants of the specification, at every step of the real run
Mass == phase \in {"prune", "done"} => MassOK([c |-> c, b |-> b])
=============================================================================
