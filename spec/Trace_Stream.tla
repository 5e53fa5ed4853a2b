---------------------------- MODULE Trace_Stream ----------------------------
(* Validation of recorded lists of operations on one io::Stream: names of  *)
(* every form, modes, kinds of seeking; the file system in the end.        *)
EXTENDS Transport, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
\* fs: path -> [enc, data]; cur: the stream; dead: the process has ended
VARIABLES k, pos, fs, cur, dead, bad
vars == <<k, pos, fs, cur, dead, bad>>
C == Cases[k]
FS(l) == [x \in {l[i][1] : i \in DOMAIN l} |->
            LET i == CHOOSE i \in DOMAIN l : l[i][1] = x IN [enc |-> l[i][2], data |-> l[i][3]]]
Init == k \in DOMAIN Cases /\ pos = 0 /\ fs = FS(C.before) /\ cur = Closed /\ dead = FALSE /\ bad = ""
Fail(s) == bad' = s /\ UNCHANGED <<fs, cur, dead>>
\* the file system once the stream is closed, and if closing ends the process
AfterClose == IF cur.open /\ cur.dir = "w"
              THEN LET old == IF cur.name.form = "std" /\ Exists(fs, cur.name) THEN fs[cur.name.base].data ELSE <<>>
                   IN Written(fs, cur.name, old \o cur.data)
              ELSE fs
CloseDies == cur.open /\ cur.dir = "r" /\ cur.ended /\ cur.bad
\* opening for writing empties the file at once, opening for appending keeps it
Opened(f, o) ==
    LET m == Base(o.mode) IN
    [open |-> TRUE, name |-> o.name, dir |-> IF m \in {"r", "r+"} THEN "r" ELSE "w",
     data |-> IF m = "a" /\ Exists(f, o.name) THEN f[o.name.base].data ELSE <<>>, bad |-> FALSE, ended |-> FALSE]
Answer == C.out[pos + 1]
Do(o) ==
  IF pos + 1 > C.done
  THEN IF o.op \in {"open", "make", "close"} /\ CloseDies
       THEN dead' = TRUE /\ UNCHANGED <<fs, cur>> /\ bad' = IF C.rc = 1 THEN "" ELSE "ended with " \o ToString(C.rc)
       ELSE Fail("the process ended")
  ELSE IF o.op \in {"open", "make", "close"} /\ CloseDies THEN Fail("a failed command went unnoticed")
  ELSE CASE o.op \in {"open", "make"} ->
              LET f == AfterClose IN
              IF ~OpenOK(f, o.name, o.mode, o.seek)
              THEN IF Answer[1] # "refused" THEN Fail("opened")
                   ELSE fs' = f /\ cur' = Closed /\ UNCHANGED <<dead, bad>>
              ELSE IF Answer[1] # "ok" THEN Fail("refused")
                   ELSE /\ cur' = Opened(f, o)
                        /\ fs' = IF Base(o.mode) = "w" /\ o.name.form # "std" THEN Written(f, o.name, <<>>) ELSE f
                        /\ UNCHANGED <<dead, bad>>
         [] o.op = "close" -> fs' = AfterClose /\ cur' = Closed /\ UNCHANGED <<dead, bad>>
         [] o.op \in {"write", "read"} /\ ~cur.open ->
              /\ bad' = IF Answer[1] = "none" THEN "" ELSE "a stream out of nothing"
              /\ UNCHANGED <<fs, cur, dead>>
         [] o.op = "write" -> /\ cur' = [cur EXCEPT !.data = Append(@, o.c)]
                              /\ UNCHANGED <<fs, dead>> /\ bad' = IF Answer[1] = "ok" THEN "" ELSE "writing failed"
         [] o.op = "read" ->
              LET r == IF cur.ended THEN [data |-> <<>>, bad |-> cur.bad] ELSE Content(fs, cur.name) IN
              /\ bad' = IF Answer[1] = r.data THEN "" ELSE "read " \o ToString(Answer[1]) \o " for " \o ToString(r.data)
              /\ cur' = [cur EXCEPT !.ended = TRUE, !.bad = r.bad]
              /\ fs' = IF cur.name.form = "std" THEN Written(fs, cur.name, <<>>) ELSE fs
              /\ UNCHANGED dead
Step == /\ pos >= 0 /\ pos < Len(C.ops) /\ bad = "" /\ ~dead
        /\ Do(C.ops[pos + 1])
        /\ pos' = pos + 1 /\ UNCHANGED k
Visible(f) == {x \in DOMAIN f : x # "stdin" /\ ~(x = "stdout" /\ f[x].data = <<>>)}
\* the end: the stream is destroyed, then the files are as they must be
Last == LET died == dead \/ CloseDies
            f == IF dead THEN fs ELSE AfterClose
            g == FS(C.after)
        IN IF bad # "" THEN "operation " \o ToString(pos) \o ": " \o bad
           ELSE IF died # (C.rc = 1) \/ (~died /\ C.rc # 0) THEN "ended with " \o ToString(C.rc)
           ELSE IF DOMAIN g # Visible(f) THEN "other files: " \o ToString(DOMAIN g)
           ELSE IF \E x \in Visible(f) : f[x] # g[x]
                THEN LET x == CHOOSE x \in Visible(f) : f[x] # g[x] IN "file " \o x \o ": " \o ToString(g[x]) \o " for " \o ToString(f[x])
           ELSE "ok"
Verdict == /\ pos >= 0 /\ (bad # "" \/ dead \/ pos = Len(C.ops))
           /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o Last)
           /\ pos' = -1 /\ UNCHANGED <<k, fs, cur, dead, bad>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
