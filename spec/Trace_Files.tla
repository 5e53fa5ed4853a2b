------------------------------ MODULE Trace_Files ------------------------------
(* Trace validation of chains of conversions: every file in the chain is   *)
(* what the step that wrote it must make of the file before it.            *)
EXTENDS ModelFile, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, pos, cur, bad
vars == <<k, pos, cur, bad>>
C == Cases[k]
\* a recorded file: [kind, inter, vocab, header, rows]
Row(r) == [g |-> r[1], p |-> r[2], w |-> r[3]]
Content(x) == [inter |-> x.inter, vocab |-> x.vocab, rows |-> [i \in DOMAIN x.rows |-> Row(x.rows[i])]]
Init == k \in DOMAIN Cases /\ pos = 1 /\ cur = Content(C.start) /\ bad = ""
Expected(op) ==
    CASE op = "tree>arpa" -> WriteTree(ReadTree(cur, C.unlisted))
      [] op = "tree>bin" -> ReadTree(cur, C.unlisted)
      [] op = "hash>arpa" -> ReadHash(cur, C.least)
Problem(st, e) ==
    LET x == Content(st.file)
        n == MaxOf(1, FileOrder(e.rows))
    IN IF x.inter # e.inter THEN "type"
       ELSE IF st.op # "hash>arpa" /\ x.vocab # e.vocab THEN "vocabulary"
       ELSE IF st.op # "hash>arpa" /\ st.file.header # CountsOf(e.rows, n) THEN "announced numbers of n-grams"
       ELSE IF st.op = "hash>arpa" /\ st.file.header # CountsOf(x.rows, Len(st.file.header)) THEN "announced numbers of n-grams"
       ELSE IF st.op = "hash>arpa" THEN
            (IF SameRows(x.rows, e.rows) THEN "" ELSE "n-grams or values: " \o
                ToString((RangeOf(x.rows) \ RangeOf(e.rows)) \cup (RangeOf(e.rows) \ RangeOf(x.rows))))
       ELSE IF Grams1(x.rows) # Grams1(e.rows) THEN "n-grams: " \o ToString((Grams1(x.rows) \ Grams1(e.rows)) \cup (Grams1(e.rows) \ Grams1(x.rows)))
       ELSE IF x.rows # e.rows THEN
            "value or position of " \o ToString(x.rows[CHOOSE i \in DOMAIN x.rows : i \notin DOMAIN e.rows \/ x.rows[i] # e.rows[i]])
       ELSE ""
Step == /\ pos \in DOMAIN C.steps /\ bad = ""
        /\ LET st == C.steps[pos] e == Expected(st.op) p == Problem(st, e)
           IN /\ bad' = IF p # "" THEN "step " \o ToString(pos) \o " (" \o st.how \o "): " \o p
                        ELSE IF st.again # "same" THEN "step " \o ToString(pos) \o " (" \o st.how \o "): " \o st.again ELSE ""
              /\ cur' = Content(st.file)
        /\ pos' = pos + 1 /\ UNCHANGED k
Verdict == /\ pos >= 1 /\ (bad # "" \/ pos = Len(C.steps) + 1)
           /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o (IF bad = "" THEN "ok" ELSE bad))
           /\ pos' = -1 /\ UNCHANGED <<k, cur, bad>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
