------------------------------ MODULE Trace_Sums ------------------------------
(* Trace validation of the probabilities a written model assigns: every    *)
(* context of the model in turn, all of its probability added up.          *)
EXTENDS NgramModel, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, pos, ctxs, m, bad
vars == <<k, pos, ctxs, m, bad>>
C == Cases[k]
Words(mm) == {g[1] : g \in {x \in DOMAIN mm.p : Len(x) = 1}}
Init == /\ k \in DOMAIN Cases
        /\ m = [p |-> ToFun(C.p), w |-> ToFun(C.w), inter |-> C.inter]
        /\ ctxs = SetToSeq({Hist(g) : g \in DOMAIN m.p} \cup DOMAIN m.w)
        /\ pos = 0 /\ bad = ""
\* single values first
Values == /\ pos = 0
          /\ bad' = IF ~NoDup(C.p) THEN "an n-gram twice"
                    ELSE IF \E g \in DOMAIN m.p : m.p[g] < 0 \/ m.p[g] > One + C.tol
                    THEN "not a probability: " \o ToString(CHOOSE g \in DOMAIN m.p : m.p[g] < 0 \/ m.p[g] > One + C.tol)
                    ELSE ""
          /\ pos' = 1 /\ UNCHANGED <<k, ctxs, m>>
Context == /\ pos \in DOMAIN ctxs /\ bad = ""
           /\ LET s == SumAfter(m, ctxs[pos], Words(m))
              IN bad' = IF AbsV(s - One) > C.tol
                        THEN "after " \o ToString(ctxs[pos]) \o " the probabilities sum to " \o ToString(s) \o "/2^26" ELSE ""
           /\ pos' = pos + 1 /\ UNCHANGED <<k, ctxs, m>>
Verdict == /\ pos >= 1 /\ (bad # "" \/ pos = Len(ctxs) + 1)
           /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o (IF bad = "" THEN "ok" ELSE bad))
           /\ pos' = -1 /\ UNCHANGED <<k, ctxs, m, bad>>
Next == Values \/ Context \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
