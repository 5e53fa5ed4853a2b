----------------------------- MODULE Trace_Runs -----------------------------
(* Validation of several runs of one training: those that must give the     *)
(* same model do, and none that is allowed is refused.                      *)
EXTENDS Storage, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, pos, bad
vars == <<k, pos, bad>>
C == Cases[k]
Init == k \in DOMAIN Cases /\ pos = 0 /\ bad = ""
Letters(l) == {l[i] : i \in DOMAIN l}
R(i) == C.runs[i]
Differ(i, j) == {f \in {"words", "counts", "backoffs", "model"} : R(i)[f] # R(j)[f]}
Step == /\ pos >= 0 /\ pos < Len(C.runs) /\ bad = ""
        /\ LET i == pos + 1
               o == Letters(R(i).opts)
               J == {j \in 1..pos : SameModel(C.prog, o, Letters(R(j).opts), C.mark)}
               D == {j \in J : Differ(i, j) # {}}
           IN bad' = IF Allowed(C.prog, o, C.mark) /\ R(i).rc # 0 THEN "refused with " \o ToString(R(i).opts) \o ": " \o ToString(R(i).rc)
                     ELSE IF D # {} THEN LET j == CHOOSE j \in D : TRUE IN
                            "with " \o ToString(R(i).opts) \o " other " \o ToString(Differ(i, j)) \o " than with " \o ToString(R(j).opts)
                     ELSE ""
        /\ pos' = pos + 1 /\ UNCHANGED k
Verdict == /\ bad # "" \/ pos = Len(C.runs)
           /\ pos >= 0
           /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o (IF bad = "" THEN "ok" ELSE bad))
           /\ pos' = -1 /\ UNCHANGED <<k, bad>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
