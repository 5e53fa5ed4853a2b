--------------------------- MODULE Trace_Options ---------------------------
(* Recorded uses of the option parser, one source of arguments at a time.  *)
(* A case: table, steps [kind |-> "parse" / "file" / "int", argv, text,    *)
(* override, num, id], and what came of it: out ("ok", "help", "refused"), *)
(* val, spec, args, ints.                                                  *)
EXTENDS Options, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, pos, s, end, ints
vars == <<k, pos, s, end, ints>>
C == Cases[k]
Init == k \in DOMAIN Cases /\ pos = 1 /\ s = Fresh(C.table) /\ end = "" /\ ints = <<>>

Outcome(t) == CASE t.status = "ok" -> "" [] t.status = "help" -> "help" [] OTHER -> "refused"
Take == /\ end = "" /\ pos <= Len(C.steps)
        /\ LET e == C.steps[pos]
               t == CASE e.kind = "file" -> Line(C.table, s, Split(e.text), e.override)
                      [] e.kind = "parse" -> Checked(C.table, Line(C.table, s, e.argv, e.override), e.num)
                      [] e.kind = "int" -> IF IntOK(s.val[e.id]) THEN s ELSE [s EXCEPT !.status = "not a number"]
           IN /\ s' = t /\ end' = Outcome(t)
              /\ ints' = IF e.kind = "int" /\ IntOK(s.val[e.id]) THEN Append(ints, IntOf(s.val[e.id])) ELSE ints
        /\ pos' = pos + 1 /\ UNCHANGED k
Diff == LET want == IF end = "" THEN "ok" ELSE end IN
        IF C.out # want THEN "outcome " \o C.out \o " where " \o want \o " is right (" \o s.status \o ")"
        ELSE IF C.ints # ints THEN "numbers read: " \o ToString(C.ints) \o " for " \o ToString(ints)
        ELSE IF want # "ok" THEN "ok"
        ELSE IF C.args # s.args THEN "arguments: " \o ToString(C.args) \o " for " \o ToString(s.args)
        ELSE IF C.val # s.val THEN "values: " \o ToString(C.val) \o " for " \o ToString(s.val)
        ELSE IF \E i \in DOMAIN C.table : C.spec[i] # (i \in s.spec) THEN "which options were given"
        ELSE "ok"
Verdict == /\ pos > 0 /\ (end # "" \/ pos > Len(C.steps))
           /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o Diff)
           /\ pos' = -1 /\ end' = "done" /\ UNCHANGED <<k, s, ints>>
Next == (pos > 0 /\ Take) \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
