---------------------------- MODULE Trace_Storage ----------------------------
(* Validation of what the code finds in its training data.                  *)
EXTENDS Storage, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, pos, bad
vars == <<k, pos, bad>>
C == Cases[k]
Init == k \in DOMAIN Cases /\ pos = 0 /\ bad = ""
Bag(l) == [w \in {l[i] : i \in DOMAIN l} |-> Cardinality({i \in DOMAIN l : l[i] = w})]
\* an answer is a list of [word, times]
AsBag(a) == LET W == {a[i][1] : i \in DOMAIN a}
                RECURSIVE Sum(_, _)
                Sum(w, i) == IF i > Len(a) THEN 0 ELSE (IF a[i][1] = w THEN a[i][2] ELSE 0) + Sum(w, i + 1)
            IN [w \in W |-> Sum(w, 1)]
Step == /\ pos >= 0 /\ pos < Len(C.asked) /\ bad = ""
        /\ LET q == C.asked[pos + 1] IN
           bad' = IF q.kind = "gram"
                  THEN IF q.n = Occurrences(C.text, C.clear, q.g) THEN ""
                       ELSE ToString(q.g) \o " occurs " \o ToString(Occurrences(C.text, C.clear, q.g)) \o " times, not " \o ToString(q.n)
                  ELSE LET a == TLCEval(Bag(After(C.text, C.clear, q.g))) IN
                       IF AsBag(q.mem) # a THEN "in memory, after " \o ToString(q.g) \o ": " \o ToString(q.mem) \o ", not " \o ToString(a)
                       ELSE IF AsBag(q.file) # a THEN "in the file, after " \o ToString(q.g) \o ": " \o ToString(q.file) \o ", not " \o ToString(a)
                       ELSE ""
        /\ pos' = pos + 1 /\ UNCHANGED k
Verdict == /\ bad # "" \/ pos = Len(C.asked)
           /\ pos >= 0
           /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o (IF bad = "" THEN "ok" ELSE bad))
           /\ pos' = -1 /\ UNCHANGED <<k, bad>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
