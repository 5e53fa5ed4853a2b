----------------------------- MODULE Trace_Scale -----------------------------
(* Trace validation at sizes where counters, indices and buffers wrap:      *)
(* samples of the counts of long texts, of large numbers, and of what large *)
(* models answer, against the formulas of Scale.                            *)
EXTENDS Scale, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, pos, bad
vars == <<k, pos, bad>>
C == Cases[k]
Init == k \in DOMAIN Cases /\ pos = 0 /\ bad = ""
First(S, Q, what) == IF S = {} THEN "" ELSE what \o ": " \o ToString(Q[CHOOSE i \in S : \A j \in S : i <= j])

\* ---- the counts of a text ----------------------------------------------------
View(v) == IF C.three THEN v ELSE <<v[1], v[2] + v[3] + v[4], 0, 0>>
TextStep(i) ==
    CASE i = 0 -> IF ~ProperText(C.t) THEN "not a text of this kind"
                  ELSE LET S == {o \in 1..C.n : C.sizes[o] # Size(C.t, o)} IN First(S, C.sizes, "number of n-grams")
      [] i = 1 -> LET S == {o \in 1..C.n : C.contexts[o] # Contexts(C.t, o)} IN First(S, C.contexts, "number of contexts")
      [] i = 2 -> LET S == {i2 \in DOMAIN C.counts : C.counts[i2][2] # Count(C.t, C.n, C.absolute, C.counts[i2][1])}
                  IN First(S, C.counts, "count")
      [] i = 3 -> LET S == {i2 \in DOMAIN C.after : C.after[i2][2] # View(After(C.t, C.n, C.absolute, C.after[i2][1]))}
                  IN First(S, C.after, "context")
      [] i = 4 -> IF C.nothing # View(AfterNothing(C.t, C.n, C.absolute)) THEN "the empty context: " \o ToString(C.nothing) ELSE ""
      [] OTHER -> "end"

\* ---- numbers ------------------------------------------------------------------
Fun(L) == [g \in {L[i][1] : i \in DOMAIN L} |-> L[CHOOSE i \in DOMAIN L : L[i][1] = g][2]]
NumberStep(i) ==
    CASE i = 0 -> LET e == BigCounts(Fun(C.given), C.n, C.absolute)
                      S == {j \in DOMAIN C.counts : ~(C.counts[j][1] \in DOMAIN e /\ e[C.counts[j][1]] = C.counts[j][2])}
                      D == DOMAIN e \ {C.counts[j][1] : j \in DOMAIN C.counts}
                      B == {j \in DOMAIN C.after : C.after[j][2] # (LET a == BigAfter(e, C.after[j][1])
                                                                       IN IF C.three THEN a ELSE <<a[1], a[2] + a[3] + a[4], 0, 0>>)}
                      H == {SubSeq(g, 1, Len(g) - 1) : g \in DOMAIN e} \ {C.after[j][1] : j \in DOMAIN C.after}
                  IN IF S # {} THEN First(S, C.counts, "count")
                     ELSE IF {g \in D : e[g] # <<>>} # {} THEN "an n-gram is missing: " \o ToString(CHOOSE g \in D : TRUE)
                     ELSE IF H # {} THEN "a context is missing: " \o ToString(CHOOSE h \in H : TRUE)
                     ELSE First(B, C.after, "context")
      [] OTHER -> "end"

\* ---- what a large model answers --------------------------------------------------
ModelStep(i) ==
    CASE i = 0 -> LET S == {j \in DOMAIN C.queries : LET q == C.queries[j] a == Ask(C.m, Recent(C.m, q[1]))
                                                     IN ~(q[2] = a.lp /\ q[3] = a.ord)}
                  IN First(S, C.queries, "answer")
      [] OTHER -> "end"
\* a text, scored: [place, order, value] of some tokens; the sum of all
Word(p) == 1 + Tok(C.t, p)
Before(p) == [j \in 1..(IF p + 1 < C.m.order THEN p + 1 ELSE C.m.order) |-> Word(p + 1 - (IF p + 1 < C.m.order THEN p + 1 ELSE C.m.order) + j - 1)]
StreamStep(i) ==
    CASE i = 0 -> LET S == {j \in DOMAIN C.tokens : LET q == C.tokens[j] a == Ask(C.m, Before(q[1]))
                                                    IN ~(q[2] = Word(q[1]) /\ q[3] = a.ord /\ q[4] = a.lp)}
                  IN IF C.words # Length(C.t) \/ C.unks # 0 \/ C.lines # C.words THEN "words: " \o ToString(<<C.words, C.unks, C.lines>>)
                     ELSE First(S, C.tokens, "token")
      [] i = 1 -> LET lp == FoldSet(LAMBDA p, a : a + Ask(C.m, Before(p)).lp, 0, 0..(C.words - 1))
                  IN IF C.logprob # lp THEN "sum " \o ToString(C.logprob) \o " is not " \o ToString(lp) ELSE ""
      [] OTHER -> "end"

StepOf(i) == CASE C.kind = "text" -> TextStep(i) [] C.kind = "number" -> NumberStep(i) [] C.kind = "model" -> ModelStep(i)
               [] C.kind = "stream" -> StreamStep(i)
Look == /\ pos >= 0 /\ bad = ""
        /\ bad' = StepOf(pos) /\ pos' = pos + 1 /\ UNCHANGED k
Verdict == /\ pos >= 0 /\ bad # ""
           /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o (IF bad = "end" THEN "ok" ELSE bad))
           /\ pos' = -1 /\ UNCHANGED <<k, bad>>
Next == Look \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
