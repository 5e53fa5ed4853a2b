--------------------------- MODULE Trace_Programs ---------------------------
(* Runs of the programs themselves.  kind "refuse": the command line must  *)
(* be refused exactly when the table says so, and a refused one leaves no  *)
(* trace in the file system.  kind "spell": two spellings of a command     *)
(* line that mean the same give the same result.                           *)
EXTENDS Options, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, done
C == Cases[k]
Init == k \in DOMAIN Cases /\ done = FALSE
Diff == IF C.kind = "refuse"
        THEN LET r == Parse(C.table, C.argv, 2) IN
             IF r.status = "ok" THEN "ok"     \* not a case for this
             ELSE IF r.status = "help" THEN IF C.rc # 0 \/ C.touched THEN "help" ELSE "ok"
             ELSE IF C.rc = 0 THEN "accepted though " \o r.status
             ELSE IF C.rc < 0 THEN "crashed"
             ELSE IF C.touched THEN "refused, but files were touched" ELSE "ok"
        ELSE LET a == Parse(C.table, C.argv, 2) b == Parse(C.table, C.argv2, 2) IN
             IF a # b \/ a.status # "ok" THEN "spelling generator is wrong"
             ELSE IF C.rc # C.rc2 \/ C.rc # 0 THEN "exit " \o ToString(C.rc) \o " and " \o ToString(C.rc2)
             ELSE IF ~C.same THEN "two spellings of a command line give different results" ELSE "ok"
Next == ~done /\ done' = TRUE /\ UNCHANGED k /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o Diff)
Spec == Init /\ [][Next]_<<k, done>>
=============================================================================
