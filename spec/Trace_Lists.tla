------------------------------ MODULE Trace_Lists ------------------------------
(* Trace validation of look-ahead lists: the scores of many words after a  *)
(* history of one or two words, from one model or from a weighted mixture. *)
EXTENDS NgramModel, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, pos, ms, bad
vars == <<k, pos, ms, bad>>
C == Cases[k]
Unk == "<UNK>"
Mixed == C.mixed      \* linear values and weights; else one model, logarithms
VocabOf(p) == {g[1] : g \in {x \in {p[i][1] : i \in DOMAIN p} : Len(x) = 1}}
Vocab == UNION {VocabOf(C.models[i].p) : i \in DOMAIN C.models}
Known(w) == IF w \in Vocab THEN w ELSE Unk
Load(x) == LET f == ToFun(x.p) IN
    [p |-> IF <<Unk>> \in DOMAIN f THEN f ELSE (<<Unk>> :> C.unlisted) @@ f, w |-> ToFun(x.w), inter |-> FALSE]
Init == k \in DOMAIN Cases /\ pos = 1 /\ ms = [i \in DOMAIN C.models |-> Load(C.models[i])] /\ bad = ""
Mixture(g) == FoldFunction(LAMBDA x, acc : acc + x, 0, [i \in DOMAIN ms |-> FMul(C.weights[i], LinBo(ms[i], g))])
Says1(g, v) == IF Mixed THEN AbsV(Mixture(g) - v) <= 200 ELSE LogBo(ms[1], g, -99 * 32768).lp = v
\* a list: [history, words, scores]
List == /\ pos \in DOMAIN C.lists /\ bad = ""
        /\ LET l == C.lists[pos]
               h == [i \in DOMAIN l[1] |-> Known(l[1][i])]
               wrong == {i \in DOMAIN l[2] : ~Says1(Append(h, Known(l[2][i])), l[3][i])}
           IN bad' = IF Len(l[2]) # Len(l[3]) THEN "length of the list"
                     ELSE IF wrong = {} THEN ""
                     ELSE LET i == CHOOSE i \in wrong : TRUE IN "score of " \o ToString(l[2][i]) \o " after " \o ToString(l[1])
        /\ pos' = pos + 1 /\ UNCHANGED <<k, ms>>
Verdict == /\ pos >= 1 /\ (bad # "" \/ pos = Len(C.lists) + 1)
           /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o (IF bad = "" THEN "ok" ELSE bad))
           /\ pos' = -1 /\ UNCHANGED <<k, ms, bad>>
Next == List \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
