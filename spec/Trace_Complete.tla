---------------------------- MODULE Trace_Complete ----------------------------
(* Trace validation of add_zeroprob_grams and of reading with missing      *)
(* words: what is written, and what the readers answer before and after.   *)
EXTENDS Complete, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, pos, m, b, bad
vars == <<k, pos, m, b, bad>>
C == Cases[k]
Load(x) == [p |-> TLCEval(ToFun(x.p)), w |-> TLCEval(ToFun(x.w)), inter |-> x.inter]
Init == k \in DOMAIN Cases /\ pos = 0 /\ m = Load(C.from) /\ b = Load(C.to) /\ bad = ""
Close(x, y, n) == AbsV(x - y) <= (n * (MaxOf(x, y) \div C.rel)) + C.abs
Words == (UNION {RangeOf(g) : g \in DOMAIN m.p}) \ {"<UNK>"}
File == /\ pos = 0
        /\ LET e == Completed(m, IF C.known = <<>> THEN Words ELSE {})
               odd == (DOMAIN b.p \ DOMAIN e.p) \cup (DOMAIN e.p \ DOMAIN b.p)
               vals == {g \in DOMAIN e.p \cap DOMAIN b.p : ~Close(b.p[g], e.p[g], IF g \in DOMAIN m.p THEN 1 ELSE Len(g))}
               wts == {h \in DOMAIN e.w \cup DOMAIN b.w : ~Close(PW(b, h), PW(e, h), 1)}
           IN bad' = IF ~NoDup(C.to.p) THEN "an n-gram twice"
                     ELSE IF b.inter # m.inter THEN "type"
                     ELSE IF odd \ {<<"<UNK>">>} # {} THEN "n-grams: " \o ToString(CHOOSE g \in odd : TRUE)
                     ELSE IF vals # {} THEN "probability of " \o ToString(CHOOSE g \in vals : TRUE)
                     ELSE IF wts # {} THEN "weight of " \o ToString(CHOOSE h \in wts : TRUE)
                     ELSE ""
        /\ pos' = 1 /\ UNCHANGED <<k, m, b>>
\* n-gram, then answers from each reader
Meant(g) == [i \in DOMAIN g |-> IF g[i] \in Words \cup RangeOf(C.known) THEN g[i] ELSE "<UNK>"]
Right(q) == LET e == LinProb(m, Meant(q[1])) IN \A i \in 2..Len(q) : Close(q[i], e, Len(q[1]))
Ask == /\ pos = 1 /\ bad = ""
       /\ bad' = IF \E i \in DOMAIN C.queries : ~Right(C.queries[i])
                 THEN "answer to " \o ToString(C.queries[CHOOSE i \in DOMAIN C.queries : ~Right(C.queries[i])]) ELSE ""
       /\ pos' = 2 /\ UNCHANGED <<k, m, b>>
Verdict == /\ pos >= 1 /\ (bad # "" \/ pos = 2)
           /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o (IF bad = "" THEN "ok" ELSE bad))
           /\ pos' = -1 /\ UNCHANGED <<k, m, b, bad>>
Next == File \/ Ask \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
