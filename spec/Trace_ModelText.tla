-------------------------- MODULE Trace_ModelText --------------------------
(* Recorded readings of damaged model files: what each reader did with the *)
(* bytes it got.                                                            *)
EXTENDS ModelBin, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, pos, at, st, bad
vars == <<k, pos, at, st, bad>>
C == Cases[k]
\* the text is read line by line, then every reader's outcome is looked at
Init == k \in DOMAIN Cases /\ pos = 0 /\ at = 1 /\ st = Start /\ bad = ""
Line == /\ pos = 0 /\ ~C.bin /\ at <= Len(C.text)
        /\ LET e == {i \in at..Len(C.text) : C.text[i] = NL}
               end == IF e = {} THEN Len(C.text) + 1 ELSE Min(e)
           IN st' = ReadLine(st, SubSeq(C.text, at, end - 1)) /\ at' = end + 1
        /\ UNCHANGED <<k, pos, bad>>
EndOfText == /\ pos = 0 /\ (C.bin \/ at > Len(C.text))
             /\ st' = IF C.bin THEN st ELSE AtEnd(st)
             /\ pos' = 1 /\ UNCHANGED <<k, at, bad>>
Should(kind) == IF C.bin THEN BinVerdict(C.text)
                ELSE IF kind = "head" THEN HeadOf(C.text).v ELSE Verdict(kind, st, "")
Near(x, y) == LET d == IF x > y THEN x - y ELSE y - x
                  a == IF x < 0 THEN -x ELSE x IN d <= 2 + (a \div 100000)
\* n-grams that were read: [words, log-probability, [] or [weight]]
Content(g) ==
    LET L == [i \in DOMAIN st.grams |-> st.grams[i].w]
        given == {i \in DOMAIN g : g[i].w # <<Unk>> \/ <<Unk>> \in Range(L)}
    IN IF Cardinality(given) # Len(L) THEN "another number of n-grams"
       ELSE IF \E i \in DOMAIN L : ~\E j \in given :
                  /\ g[j].w = L[i] /\ Near(g[j].p, st.grams[i].p)
                  /\ g[j].b = <<>> \/ Near(g[j].b[1], st.grams[i].b)
            THEN "another n-gram" ELSE ""
Judge(o) ==
    LET v == Should(o.kind) IN
    IF v = "accept" /\ o.what # "ok" THEN "refused a well-formed file"
    ELSE IF v = "refuse" /\ o.what # "refused" THEN "took a broken file"
    ELSE IF o.kind = "head" /\ v = "accept" /\ o.counts # HeadOf(C.text).counts THEN "other counts"
    ELSE IF v = "accept" /\ ~C.bin /\ o.content /\ ~st.loose /\ ~st.inter THEN Content(o.grams)
    ELSE ""
Step == /\ pos >= 1 /\ pos <= Len(C.outs) /\ bad = ""
        /\ LET j == Judge(C.outs[pos]) IN bad' = IF j = "" THEN "" ELSE C.outs[pos].reader \o " " \o j
        /\ pos' = pos + 1 /\ UNCHANGED <<k, at, st>>
Report == /\ pos >= 1 /\ (pos > Len(C.outs) \/ bad # "")
          /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o (IF bad = "" THEN "ok" ELSE bad))
          /\ pos' = -1 /\ UNCHANGED <<k, at, st, bad>>
Next == Line \/ EndOfText \/ Step \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
