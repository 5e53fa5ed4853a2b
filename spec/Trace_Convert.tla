---------------------------- MODULE Trace_Convert ----------------------------
(* Trace validation of the conversion of interpolated models.              *)
EXTENDS Convert, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, pos, m, b, bad
vars == <<k, pos, m, b, bad>>
C == Cases[k]
Words == {g[1] : g \in {x \in DOMAIN m.p : Len(x) = 1}}
Load(x, i) == [p |-> TLCEval(ToFun(x.p)), w |-> TLCEval(ToFun(x.w)), inter |-> i]
Init == k \in DOMAIN Cases /\ pos = 0 /\ m = Load(C.from, TRUE) /\ b = Load(C.to, FALSE) /\ bad = ""
Tol(x) == (x \div C.rel) + C.abs
Close(x, y) == AbsV(x - y) <= Tol(MaxOf(x, y))
\* values put together from n printed ones
CloseN(x, y, n) == AbsV(x - y) <= (n * (MaxOf(x, y) \div C.rel)) + C.abs
\* the file itself
File == /\ pos = 0
        /\ LET f == TLCEval(Followed(m))
               e == TLCEval(ToBackoff(m))
               odd == (DOMAIN b.p \ DOMAIN e.p) \cup (DOMAIN e.p \ DOMAIN b.p)
           IN bad' = IF ~NoDup(C.to.p) THEN "an n-gram twice"
                     ELSE IF odd # {} THEN "n-grams: " \o ToString(CHOOSE g \in odd : TRUE)
                     ELSE IF \E g \in DOMAIN e.p : ~CloseN(b.p[g], e.p[g], Len(g)) THEN
                          "probability of " \o ToString(CHOOSE g \in DOMAIN e.p : ~CloseN(b.p[g], e.p[g], Len(g)))
                     ELSE IF DOMAIN b.w # f THEN "weights listed"
                     ELSE IF \E h \in DOMAIN b.w : ~Close(b.w[h], PW(e, h)) THEN
                          "weight of " \o ToString(CHOOSE h \in DOMAIN b.w : ~Close(b.w[h], PW(e, h)))
                     ELSE ""
        /\ pos' = 1 /\ UNCHANGED <<k, m, b>>
\* every word after every context of the model, with the model as written
Everywhere ==
    /\ pos = 1 /\ bad = ""
    /\ LET ctxs == TLCEval(Followed(m) \cup {<<>>})
           ws == TLCEval(Words)
           off == {h \in ctxs : \E x \in ws : ~CloseN(LinBo(b, Append(h, x)), LinInt(m, Append(h, x)), Len(h) + 1)}
           sums == IF C.normal THEN {h \in ctxs : AbsV(SumAfter(b, h, ws) - One) > C.sumtol} ELSE {}
       IN bad' = IF off # {} THEN "lookup after " \o ToString(CHOOSE h \in off : TRUE)
                 ELSE IF sums # {} THEN "sum after " \o ToString(CHOOSE h \in sums : TRUE)
                 ELSE ""
    /\ pos' = 2 /\ UNCHANGED <<k, m, b>>
\* what the library answers before and after converting in memory
Asked(q) == CloseN(q[2], q[3], Len(q[1])) /\ CloseN(q[2], LinInt(m, q[1]), Len(q[1]))
Ask == /\ pos = 2 /\ bad = ""
       /\ bad' = IF \E i \in DOMAIN C.queries : ~Asked(C.queries[i])
                 THEN "answer to " \o ToString(C.queries[CHOOSE i \in DOMAIN C.queries : ~Asked(C.queries[i])]) ELSE ""
       /\ pos' = 3 /\ UNCHANGED <<k, m, b>>
Verdict == /\ pos >= 1 /\ (bad # "" \/ pos = 3)
           /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o (IF bad = "" THEN "ok" ELSE bad))
           /\ pos' = -1 /\ UNCHANGED <<k, m, b, bad>>
Next == File \/ Everywhere \/ Ask \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
