--------------------------- MODULE Trace_Statistics ---------------------------
(* Trace validation of what arpasize and check_model report of a model.     *)
EXTENDS Statistics, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, pos, m, rep, bad
vars == <<k, pos, m, rep, bad>>
C == Cases[k]
Floor == -60 * 32768
\* n-grams are [words, logarithm, linear value]
Lin == [p |-> ToFun(C.plin), w |-> ToFun(C.wlin), inter |-> C.inter]
Log == [p |-> ToFun(C.plog), w |-> ToFun(C.wlog), inter |-> FALSE]
\* book-keeping n-grams added on the way
Completed(x) ==
    LET L == UNION {Heads(g) : g \in DOMAIN x.p} \cup DOMAIN x.w
    IN [x EXCEPT !.p = TLCEval([g \in L \cup DOMAIN @ |-> IF g \in DOMAIN @ THEN @[g] ELSE LogBo(x, g, Floor).lp])]
Init == /\ k \in DOMAIN Cases /\ pos = 1 /\ bad = ""
        /\ m = IF C.job = "size" /\ ~C.inter THEN (IF C.added THEN Completed(Log) ELSE Log) ELSE Lin
        /\ rep = 1
(*------------------------------- sizes ----------------------------------*)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
JudgeSize(r) ==
    LET S == Sizes(m, LAMBDA g : IF C.inter THEN ClassLin(m, g) ELSE ClassLog(m, g, Floor))
    IN IF Len(r.orders) # C.order THEN "orders reported: " \o ToString(r.orders)
       ELSE IF \E o \in 1..C.order :
                 LET lim == IF o \in DOMAIN S THEN S[o] ELSE <<0, 0>>
                 IN r.orders[o] < lim[1] \/ r.orders[o] > lim[2]
            THEN r.by \o " reports " \o ToString(r.orders) \o ", should be within " \o ToString(S)
       ELSE IF SumSeq(r.orders) # r.total THEN "the total is no sum" ELSE ""
Size == /\ C.job = "size" /\ pos \in DOMAIN C.reports /\ bad = ""
        /\ bad' = JudgeSize(C.reports[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<k, m, rep>>
(*-------------------------------- sums ----------------------------------*)
\* word by word through the text; rep is the next report
Text == [i \in DOMAIN C.text |-> Known(m, C.text[i])]
Tol(s) == 3400 + s \div 10000
Sum == /\ C.job = "sums" /\ pos \in DOMAIN C.text /\ bad = ""
       /\ LET h == ContextAt(Text, pos, C.order)
              s == Total(m, h)
              told == rep \in DOMAIN C.reports /\ C.reports[rep].context = h
                      /\ AbsV(C.reports[rep].sum - s) <= Tol(s)
          IN /\ rep' = IF told /\ (Fails(s) \/ Doubtful(s, Tol(s))) THEN rep + 1 ELSE rep
             /\ bad' = IF Fails(s) /\ ~Doubtful(s, Tol(s)) /\ ~told
                       THEN "sum " \o ToString(s) \o " after " \o ToString(h) \o " not reported, but " \o
                            (IF rep \in DOMAIN C.reports THEN ToString(C.reports[rep]) ELSE "nothing")
                       ELSE ""
       /\ pos' = pos + 1 /\ UNCHANGED <<k, m>>
SumEnd == /\ C.job = "sums" /\ pos = Len(C.text) + 1 /\ bad = ""
          /\ bad' = IF rep # Len(C.reports) + 1 THEN "reported without need: " \o ToString(C.reports[rep])
                    ELSE IF C.errors # Len(C.reports) \/ C.words # Len(C.text) THEN "wrong numbers at the end" ELSE ""
          /\ pos' = pos + 1 /\ UNCHANGED <<k, m, rep>>
(*-------------------------------- words ---------------------------------*)
\* the probability of every word after the text
P(w) == LinProb(m, Append(Text, w))
O(w) == IF C.inter THEN IntOrder(m, Append(Text, w)) ELSE LogBo(Log, Append(Text, w), 0).ord
JudgeWord(r, i) ==
    IF r[1] \notin Vocab(m) \/ (\E j \in 1..(i - 1) : C.lines[j][1] = r[1]) THEN "word"
    ELSE IF r[2] # i - 1 THEN "number"
    ELSE IF AbsV(r[3] - P(r[1])) > 140 + P(r[1]) \div 10000 THEN "probability (" \o ToString(P(r[1])) \o ")"
    ELSE IF r[4] # O(r[1]) /\ r[1] # Unk THEN "order" ELSE ""
Word == /\ C.job = "words" /\ pos \in DOMAIN C.lines /\ bad = ""
        /\ LET j == JudgeWord(C.lines[pos], pos)
           IN bad' = IF j = "" THEN "" ELSE "wrong " \o j \o " in " \o ToString(C.lines[pos])
        /\ pos' = pos + 1 /\ UNCHANGED <<k, m, rep>>
\* the best word and the second best
WordEnd == /\ C.job = "words" /\ pos = Len(C.lines) + 1 /\ bad = ""
           /\ LET b == C.best[1]  c == C.second[1]
                  near(x, y) == x + 140 + (y \div 10000) >= y
              IN bad' = IF Len(C.lines) # Cardinality(Vocab(m)) THEN "words missing"
                        ELSE IF AbsV(Total(m, Text) - C.sum) > Tol(C.sum) THEN "wrong sum (" \o ToString(Total(m, Text)) \o ")"
                        ELSE IF \E w \in Vocab(m) : ~near(P(b), P(w)) THEN "not the best"
                        ELSE IF c = b \/ \E w \in Vocab(m) \ {b} : ~near(P(c), P(w)) THEN "not the second best"
                        ELSE IF ~near(P(b), C.best[2]) \/ ~near(C.best[2], P(b)) \/ ~near(P(c), C.second[2]) \/ ~near(C.second[2], P(c))
                        THEN "wrong probability of the best" ELSE ""
           /\ pos' = pos + 1 /\ UNCHANGED <<k, m, rep>>
Done == \/ C.job = "size" /\ pos = Len(C.reports) + 1
        \/ C.job = "sums" /\ pos = Len(C.text) + 2
        \/ C.job = "words" /\ pos = Len(C.lines) + 2
Verdict == /\ pos >= 1 /\ (bad # "" \/ Done)
           /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o (IF bad = "" THEN "ok" ELSE bad))
           /\ pos' = -1 /\ UNCHANGED <<k, m, rep, bad>>
Next == Size \/ Sum \/ SumEnd \/ Word \/ WordEnd \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
