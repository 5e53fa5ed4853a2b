--------------------------- MODULE Trace_Perplexity ---------------------------
(* Trace validation of the perplexity program: its probability stream, one *)
(* entry per token, and its final report.                                  *)
EXTENDS Perplexity, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, pos, m, cfg, s, bad
vars == <<k, pos, m, cfg, s, bad>>
C == Cases[k]
None == -2000000000
Held(f) == [g \in {x \in DOMAIN f : f[x] > C.impossible} |-> f[g]]
Load == LET f == ToFun(C.p) f1 == IF <<UnkW>> \in DOMAIN f THEN f ELSE (<<UnkW>> :> C.unlisted) @@ f
        IN [p |-> Held(f1), w |-> ToFun(C.w)]
Config == [order |-> C.order, vocab |-> {C.p[i][1][1] : i \in {j \in DOMAIN C.p : Len(C.p[j][1]) = 1}} \ {UnkW},
           wb |-> C.wb, breaks |-> RangeOf(C.breaks), marks |-> C.marks, cues |-> RangeOf(C.cues),
           skip |-> C.skip, init |-> C.init, chars |-> ToFun(C.chars)]
Init == k \in DOMAIN Cases /\ pos = 1 /\ m = Load /\ cfg = Config /\ s = Start(Config) /\ bad = ""

Score(g) == LogBo(m, g, -60 * 32768)
Eval(t, w) == Token(cfg, t, w, Score)
Near(a, b, d) == AbsV(a - b) <= d
Read == /\ pos \in DOMAIN C.text /\ bad = ""
        /\ LET t == Eval(s, C.text[pos]) e == C.stream[pos]
           IN /\ s' = t
              /\ bad' = IF e[1] # C.text[pos] THEN "stream: token " \o ToString(pos)
                        ELSE IF ~Near(e[2], t.out.lp, 1) THEN "stream: probability of token " \o ToString(pos)
                        ELSE IF e[3] # t.out.ord THEN "stream: order of token " \o ToString(pos)
                        ELSE IF e[4] # t.out.word THEN "stream: word log-probability at token " \o ToString(pos) ELSE ""
        /\ pos' = pos + 1 /\ UNCHANGED <<k, m, cfg>>

R == C.report
\* pct hundredths of a percent
Share(pct, num, den) == den = 0 \/ AbsV(pct * den - 10000 * num) <= den + 1
\* bits in thousandths: bits * n * log10(2) = -lp
BitsOk(b, lp, n) == n <= 0 \/ LET c == b * n x == (c * 9) + ((c \div 1000) * 864) + (((c % 1000) * 864) \div 1000) + ((c \div 1000) * 15) \div 100 IN AbsV(x + lp) <= 6 * n + 30
PplOk(b, l2, n) == n <= 0 \/ Near(b, l2, 9) \/ (l2 = None /\ b > 1020000) \* overflow
Final ==
    LET tot == s.words + s.ccs + (IF C.skip THEN s.unks ELSE 0)
        ttot == s.scored + s.ccs + (IF C.skip THEN s.tunks ELSE 0)
        each == C.wb = "each"
    IN IF R.unks # (IF each THEN s.tunks ELSE s.unks) THEN "unknown words"
       ELSE IF ~Share(R.unkpct, R.unks, tot) THEN "share of unknown words"
       ELSE IF ~each /\ R.tunks # s.tunks THEN "unknown tokens"
       ELSE IF ~each /\ ~Share(R.tunkpct, s.tunks, ttot) THEN "share of unknown tokens"
       ELSE IF R.ccs # (IF C.cues = <<>> THEN None ELSE s.ccs) THEN "context cues"
       ELSE IF R.words # s.words THEN "words"
       ELSE IF R.tokens # (IF each THEN None ELSE s.scored) THEN "tokens"
       ELSE IF R.totwords # tot THEN "total words"
       ELSE IF R.tottokens # (IF each THEN None ELSE ttot) THEN "total tokens"
       ELSE IF R.logprob # LogProb(s) THEN "log-probability"
       ELSE IF R.root # s.words \/ R.root2 # s.words - s.ends THEN "roots"
       ELSE IF ~BitsOk(R.bits, LogProb(s), s.words) \/ ~PplOk(R.bits, R.ppl2, s.words) THEN "perplexity"
       ELSE IF ~BitsOk(R.bits2, LogProb(s), s.words - s.ends) \/ ~PplOk(R.bits2, R.ppl22, s.words - s.ends)
            THEN "perplexity without sentence ends"
       ELSE IF s.words # s.scored /\ (R.toklp # s.toklp \/ R.tokroot # s.scored) THEN "tokenwise log-probability"
       ELSE IF s.words # s.scored /\ (~BitsOk(R.tokbits, s.toklp, s.scored) \/ ~PplOk(R.tokbits, R.tokppl2, s.scored))
            THEN "tokenwise perplexity"
       ELSE IF s.words = s.scored /\ R.toklp # None THEN "tokenwise part"
       ELSE IF s.scored > 0 /\ (Len(R.hits) # C.order \/ \E o \in 1..C.order :
               AbsV(R.hits[o] * s.scored - 100000 * s.hits[o]) > s.scored) THEN "hit rates"
       ELSE ""
Verdict == /\ pos >= 1 /\ (bad # "" \/ pos = Len(C.text) + 1)
           /\ LET v == IF bad # "" THEN bad ELSE IF Len(C.stream) # Len(C.text) THEN "stream: length" ELSE Final
              IN PrintT("VERDICT|" \o ToString(k) \o "|" \o (IF v = "" THEN "ok" ELSE v))
           /\ pos' = -1 /\ UNCHANGED <<k, m, cfg, s, bad>>
Next == Read \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
