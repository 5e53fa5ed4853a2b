--------------------------- MODULE Trace_Evaluator ---------------------------
(* Trace validation of calls of the library's evaluator.                    *)
EXTENDS Evaluator, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, pos, m, e, bad
vars == <<k, pos, m, e, bad>>
C == Cases[k]
None == -2000000000
Held(f) == [g \in {x \in DOMAIN f : f[x] > C.impossible} |-> f[g]]
Load == LET f == ToFun(C.p) f1 == IF <<UnkW>> \in DOMAIN f THEN f ELSE (<<UnkW>> :> C.unlisted) @@ f
        IN [p |-> Held(f1), w |-> ToFun(C.w)]
Config == [order |-> C.order, vocab |-> {C.p[i][1][1] : i \in {j \in DOMAIN C.p : Len(C.p[j][1]) = 1}} \ {UnkW},
           wb |-> C.wb, breaks |-> RangeOf(C.breaks), marks |-> C.marks, cues |-> RangeOf(C.cues),
           skip |-> C.skip, init |-> 0, chars |-> ToFun(C.chars)]
Init == k \in DOMAIN Cases /\ pos = 0 /\ m = Load /\ e = Fresh(Config) /\ bad = ""
Score(g) == LogBo(m, g, -60 * 32768)
\* None: not told, or not said (how often what was hit in a mixture, and the
\* unknown tokens after a text of which each token is a word)
Same(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i] = None \/ a[i] = b[i]
Step == /\ pos >= 0 /\ pos < Len(C.calls) /\ bad = ""
        /\ LET c == C.calls[pos + 1] t == Call(e, c, Score)
           IN /\ e' = t
              /\ bad' = IF Same(c.r, t.out) THEN "" ELSE "call " \o ToString(pos + 1) \o " (" \o c.op \o "): " \o
                            ToString(c.r) \o ", not " \o ToString(t.out)
        /\ pos' = pos + 1 /\ UNCHANGED <<k, m>>
Verdict == /\ pos >= 0 /\ (bad # "" \/ pos = Len(C.calls))
           /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o (IF bad = "" THEN "ok" ELSE bad))
           /\ pos' = -1 /\ UNCHANGED <<k, m, e, bad>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
