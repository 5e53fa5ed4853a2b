----------------------------- MODULE Trace_Interp -----------------------------
(* Trace validation of simpleinterpolate2arpa: the models are mixed one    *)
(* after another, then the written file is compared with the result.       *)
EXTENDS Mixture, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, pos, acc, total, bad, obs

C == Cases[k]
Model(x) == LET p == TLCEval(ToFun(x.p)) IN [p |-> TLCEval([g \in {y \in DOMAIN p : p[y] > 0} |-> p[g]]), w |-> TLCEval(ToFun(x.w))]
Init == k \in DOMAIN Cases /\ pos = 1 /\ acc = Model(C.ms[1]) /\ total = C.ms[1].weight /\ bad = "" /\ obs = Model(C)
\* weights beyond the range of the fixed point
Wide == \E h \in DOMAIN acc.w : acc.w[h] >= 30 * One
Mix == /\ pos < Len(C.ms) /\ pos >= 1 /\ ~Wide
       /\ LET x == C.ms[pos + 1] t == total + x.weight
          IN acc' = MixModel(acc, Model(x), FDiv(total, t)) /\ total' = t
       /\ pos' = pos + 1 /\ UNCHANGED <<k, bad, obs>>

P == acc.p
Obs == obs
\* printed with four digits: within 1/8685 of the value
Tol(x) == x \div 8000 + 48
Values == \A g \in DOMAIN P : AbsV(Obs.p[g] - P[g]) <= Tol(P[g])
\* nothing to back off to: any weight will do
Weight(h) == LET a == Max({0, Left(P, h)}) b == Lower(P, acc.w, h) o == PW(Obs, h)
             IN \/ b < 300
                \/ o >= 15 * One /\ PW(acc, h) >= 14 * One
                \/ AbsV(FMul(o, b) - a) <= (a \div 8000) + 8 * (o \div 1048576) + 100
Conts == IF Len(C.ms) = 1 THEN {} ELSE {Hist(g) : g \in {x \in DOMAIN P : Len(x) > 1}}
Words == {g[1] : g \in {x \in DOMAIN P : Len(x) = 1}}
Compare ==
    LET odd == (DOMAIN P \ DOMAIN Obs.p) \cup (DOMAIN Obs.p \ DOMAIN P)
        listed == {C.p[i][1] : i \in DOMAIN C.p}
    IN IF ~NoDup(C.p) THEN "an n-gram twice"
       ELSE IF odd # {} THEN "n-grams: " \o ToString(CHOOSE g \in odd : TRUE)
       ELSE IF ~Values THEN "probability of " \o ToString(CHOOSE g \in DOMAIN P : AbsV(Obs.p[g] - P[g]) > Tol(P[g]))
       ELSE IF \E h \in Conts : ~Weight(h) THEN "weight of " \o ToString(CHOOSE h \in Conts : ~Weight(h))
       ELSE IF ~C.zero /\ \E h \in (DOMAIN acc.w \cup DOMAIN Obs.w) \ Conts : AbsV(PW(Obs, h) - PW(acc, h)) > Tol(PW(acc, h))
            THEN "weight of a context without continuations"
       ELSE IF \E g \in listed : \E x \in Heads(g) \cup {<<g[i]>> : i \in DOMAIN g} : x \notin listed /\ x # <<"<UNK>">> THEN "prefix missing"
       ELSE IF C.normal /\ (\A x \in DOMAIN Obs.w : Obs.w[x] < 15 * One) /\ \E h \in Conts \cup {<<>>} : Left(P, h) > 1000 /\ AbsV(SumAfter([p |-> Obs.p, w |-> Obs.w, inter |-> FALSE], h, Words) - One) > One \div 2000
            THEN "sum"
       ELSE ""
Verdict == /\ pos >= 1 /\ (pos = Len(C.ms) \/ Wide)
           /\ LET v == IF Wide THEN "" ELSE Compare IN PrintT("VERDICT|" \o ToString(k) \o "|" \o (IF v = "" THEN "ok" ELSE v))
           /\ pos' = -1 /\ UNCHANGED <<k, acc, total, bad, obs>>
Next == Mix \/ Verdict
Spec == Init /\ [][Next]_<<k, pos, acc, total, bad, obs>>
=============================================================================
