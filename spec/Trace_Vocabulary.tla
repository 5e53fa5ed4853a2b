------------------------- MODULE Trace_Vocabulary -------------------------
(* Operations on the real vocabulary, each with its answer.                *)
EXTENDS Vocabulary, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, pos, S, saved, ok
vars == <<k, pos, S, saved, ok>>
C == Cases[k]
Init == k \in DOMAIN Cases /\ pos = 1 /\ S = {Fresh} /\ saved = {} /\ ok = TRUE
Op == C.ops[pos]
Writes == {"new", "add", "setoov", "clear", "read", "fread", "copy", "back"}
After(x) == CASE Op.op = "new" -> {Fresh}
              [] Op.op = "add" -> {y \in {Add(x, Op.w)} : Op.out = Index(y, Op.w)}
              [] Op.op = "setoov" -> {SetOov(x, Op.w)}
              [] Op.op = "clear" -> {<<>>}
              [] Op.op \in {"read", "fread"} -> IF Op.out = 1 THEN Read(x, Op.w) ELSE {}
              [] OTHER -> {x}
Answers(x) == CASE Op.op = "index" -> Op.out = Index(x, Op.w)
                [] Op.op = "num" -> Op.out = Len(x)
                [] Op.op = "oov" -> Op.out = (IF Op.n = 0 THEN 1 ELSE 0)
                [] Op.op = "word" -> Op.n < Len(x) /\ Op.ws = <<x[Op.n + 1]>>
                [] Op.op = "list" -> Op.ws = x
                [] Op.op = "write" -> Op.ws = <<Written(x)>>
                [] Op.op = "nofile" -> Op.out = 0
                [] Op.op = "beyond" -> Op.n >= Len(x) /\ Op.out = 1    \* refused
                [] OTHER -> TRUE
Step == /\ pos >= 1 /\ pos <= Len(C.ops) /\ ok
        /\ LET S2 == IF Op.op = "back" THEN saved
                     ELSE UNION {After(x) : x \in {y \in S : Answers(y)}}
           IN /\ S' = S2 /\ ok' = (S2 # {})
        /\ saved' = IF Op.op = "copy" THEN S ELSE saved
        /\ pos' = pos + 1 /\ UNCHANGED k
Done == /\ pos >= 1 /\ (pos > Len(C.ops) \/ ~ok)
        /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o
             (IF ok THEN "ok" ELSE "operation " \o ToString(pos - 1) \o ": " \o C.ops[pos - 1].op))
        /\ pos' = 0 /\ UNCHANGED <<k, S, saved, ok>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
Numbers == \A x \in S : Numbered(x)
=============================================================================
