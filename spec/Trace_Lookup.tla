----------------------------- MODULE Trace_Lookup -----------------------------
(* Trace validation of lookups: a model is loaded once and asked about one *)
(* n-gram after another; no answer depends on the questions before it.     *)
EXTENDS NgramModel, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, pos, m, bad
vars == <<k, pos, m, bad>>
C == Cases[k]
Unk == "<UNK>"
\* the representation keeps no n-gram that is impossible
Held(f) == [g \in {x \in DOMAIN f : f[x] > C.impossible} |-> f[g]]
Load(p, w) == LET f == ToFun(p) f1 == IF <<Unk>> \in DOMAIN f THEN f ELSE (<<Unk>> :> C.unlisted) @@ f
              IN [p |-> Held(f1), w |-> ToFun(w), inter |-> C.inter]
Vocab == {g[1] : g \in {x \in {C.p[i][1] : i \in DOMAIN C.p} : Len(x) = 1}}
Known(g) == [i \in DOMAIN g |-> IF g[i] \in Vocab THEN g[i] ELSE Unk]
Init == k \in DOMAIN Cases /\ pos = 1 /\ m = Load(C.p, C.w) /\ bad = ""
Judge(a) ==
    LET g == Known(a[1])
    IN IF C.inter
       THEN IF AbsV(LinInt(m, g) - a[2]) > 140 THEN "probability"
            ELSE IF IntOrder(m, g) # a[3] THEN "order" ELSE ""
       ELSE LET r == LogBo(m, g, -60 * 32768)
            IN IF r.lp # a[2] THEN "log-probability" ELSE IF r.ord # a[3] THEN "order" ELSE ""
Ask == /\ pos \in DOMAIN C.answers /\ bad = ""
       /\ LET j == Judge(C.answers[pos])
          IN bad' = IF j = "" THEN "" ELSE j \o " of " \o ToString(C.answers[pos])
       /\ pos' = pos + 1 /\ UNCHANGED <<k, m>>
Verdict == /\ pos >= 1 /\ (bad # "" \/ pos = Len(C.answers) + 1)
           /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o (IF bad = "" THEN "ok" ELSE bad))
           /\ pos' = -1 /\ UNCHANGED <<k, m, bad>>
Next == Ask \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
