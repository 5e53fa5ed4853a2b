-------------------------- MODULE Trace_CountText --------------------------
(* Recorded readings of count files: what counts2kn did with the bytes it  *)
(* got, and the tables it has written again.                                *)
EXTENDS CountText, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, pos, at, st, bad
vars == <<k, pos, at, st, bad>>
C == Cases[k]
Init == k \in DOMAIN Cases /\ pos = 0 /\ at = 1 /\ st = Start /\ bad = ""
Line == /\ pos = 0 /\ at <= Len(C.text)
        /\ LET e == {i \in at..Len(C.text) : C.text[i] = 10}
               end == IF e = {} THEN Len(C.text) + 1 ELSE Min(e)
               l == SubSeq(C.text, at, end - 1)
           IN /\ st' = IF C.high > 0 THEN HLine(st, l, C.high, C.words) ELSE ReadLine(st, l, C.values, C.words)
              /\ at' = end + 1
        /\ UNCHANGED <<k, pos, bad>>
EndOfText == /\ pos = 0 /\ at > Len(C.text)
             /\ st' = IF C.high > 0 THEN st ELSE AtEnd(st)
             /\ pos' = 1 /\ UNCHANGED <<k, at, bad>>
Should == IF C.high > 0 THEN HVerdict(st) ELSE Verdict(st)
Table(q) == [g \in {q[i][1] : i \in DOMAIN q} |-> q[Min({i \in DOMAIN q : q[i][1] = g})][2]]
Judge ==
    LET v == Should IN
    IF C.whole /\ v = "refuse" THEN "a file as written is not well-formed"
    ELSE IF (v = "accept" \/ C.whole) /\ C.what # "ok" THEN "refused a well-formed file"
    ELSE IF v = "refuse" /\ C.what # "refused" THEN "took a broken file"
    ELSE IF v = "accept" /\ C.high = 0 /\ Table(C.cnt) # Counts(st) THEN "other counts"
    ELSE IF v = "accept" /\ C.high = 0 /\ Table(C.tot) # Totals(st) THEN "other totals"
    ELSE ""
Step == /\ pos = 1 /\ bad = "" /\ bad' = Judge
        /\ pos' = 2 /\ UNCHANGED <<k, at, st>>
Report == /\ pos = 2
          /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o (IF bad = "" THEN "ok" ELSE bad))
          /\ pos' = -1 /\ UNCHANGED <<k, at, st, bad>>
Next == Line \/ EndOfText \/ Step \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
