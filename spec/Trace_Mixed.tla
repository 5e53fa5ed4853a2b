----------------------------- MODULE Trace_Mixed -----------------------------
(* Trace validation of evaluations with several models: the machine of     *)
(* Perplexity whose scores are those of the mixture.                        *)
EXTENDS MixLog, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, pos, ms, cfg, s, bad
vars == <<k, pos, ms, cfg, s, bad>>
C == Cases[k]
None == -2000000000
Known(x) == {x.p[i][1][1] : i \in {j \in DOMAIN x.p : Len(x.p[j][1]) = 1}} \ {UnkW}
Held(f) == [g \in {y \in DOMAIN f : f[y] > C.impossible} |-> f[g]]
Load(x) == LET f == ToFun(x.p) f1 == IF <<UnkW>> \in DOMAIN f THEN f ELSE (<<UnkW>> :> C.unlisted) @@ f
           IN [p |-> TLCEval(Held(f1)), w |-> TLCEval(ToFun(x.w)), share |-> x.share,
               order |-> Max({Len(g) : g \in DOMAIN f})]
Config == [order |-> Max({ms[i].order : i \in DOMAIN ms}), vocab |-> UNION {Known(C.ms[i]) : i \in DOMAIN C.ms},
           wb |-> C.wb, breaks |-> RangeOf(C.breaks), marks |-> C.marks, cues |-> RangeOf(C.cues),
           skip |-> C.skip, init |-> C.init, chars |-> ToFun(C.chars)]
Init == /\ k \in DOMAIN Cases /\ pos = 1 /\ ms = [i \in DOMAIN C.ms |-> Load(C.ms[i])]
        /\ cfg = Config /\ s = Start(Config) /\ bad = ""

\* the order is that of the model with the longer n-grams
Main == IF ms[1].order >= ms[2].order THEN ms[1] ELSE ms[2]
Score(g) == [lp |-> Mix(ms, g), ord |-> IF C.tree THEN 1 ELSE LogBo(Main, g, Floor).ord]
Eval(t, w) == Token(cfg, t, w, Score)
Near(a, b, d) == AbsV(a - b) <= d
Read == /\ C.kind = "text" /\ pos \in DOMAIN C.text /\ bad = ""
        /\ LET t == Eval(s, C.text[pos]) e == C.stream[pos]
           IN /\ s' = t
              /\ bad' = IF e[1] # C.text[pos] THEN "stream: token " \o ToString(pos)
                        ELSE IF ~Near(e[2], t.out.lp, 3) THEN "stream: probability of token " \o ToString(pos)
                        ELSE IF e[3] # (IF C.tree THEN 0 ELSE t.out.ord) THEN "stream: order of token " \o ToString(pos)
                        ELSE IF ~Near(e[4], t.out.word, 6 + 3 * pos) THEN "stream: word log-probability at token " \o ToString(pos) ELSE ""
        /\ pos' = pos + 1 /\ UNCHANGED <<k, ms, cfg>>
\* single questions: words, answer
Ask == /\ C.kind = "queries" /\ pos \in DOMAIN C.queries /\ bad = ""
       /\ LET q == C.queries[pos]
              g == [i \in DOMAIN q[1] |-> IF q[1][i] \in cfg.vocab THEN q[1][i] ELSE UnkW]
          IN bad' = IF Near(q[2], Mix(ms, g), 3) THEN "" ELSE "query " \o ToString(pos) \o " should be " \o ToString(Mix(ms, g))
       /\ pos' = pos + 1 /\ UNCHANGED <<k, ms, cfg, s>>

R == C.report
Final ==
    LET tot == s.words + s.ccs + (IF C.skip THEN s.unks ELSE 0)
        ttot == s.scored + s.ccs + (IF C.skip THEN s.tunks ELSE 0)
        each == C.wb = "each"
    IN IF R.unks # (IF each THEN s.tunks ELSE s.unks) THEN "unknown words"
       ELSE IF ~each /\ R.tunks # s.tunks THEN "unknown tokens"
       ELSE IF R.ccs # (IF C.cues = <<>> THEN None ELSE s.ccs) THEN "context cues"
       ELSE IF R.words # s.words THEN "words"
       ELSE IF R.tokens # (IF each THEN None ELSE s.scored) THEN "tokens"
       ELSE IF R.totwords # tot THEN "total words"
       ELSE IF R.tottokens # (IF each THEN None ELSE ttot) THEN "total tokens"
       ELSE IF ~Near(R.logprob, s.wordlp + s.cw, 6 + 3 * Len(C.text)) THEN "log-probability"
       ELSE IF R.root # s.words \/ R.root2 # s.words - s.ends THEN "roots"
       ELSE IF s.words # s.scored /\ ~(Near(R.toklp, s.toklp, 6 + 3 * Len(C.text)) /\ R.tokroot = s.scored) THEN "tokenwise log-probability"
       ELSE IF C.tree /\ R.hits # <<>> THEN "hit rates not known"
       ELSE IF ~C.tree /\ s.scored > 0 /\ (Len(R.hits) # cfg.order \/ \E o \in 1..cfg.order :
               AbsV(R.hits[o] * s.scored - 100000 * s.hits[o]) > s.scored) THEN "hit rates"
       ELSE ""
Verdict == /\ pos >= 1 /\ (bad # "" \/ pos = Len(IF C.kind = "text" THEN C.text ELSE C.queries) + 1)
           /\ LET v == IF bad # "" THEN bad
                       ELSE IF C.kind = "queries" THEN ""
                       ELSE IF Len(C.stream) # Len(C.text) THEN "stream: length" ELSE Final
              IN PrintT("VERDICT|" \o ToString(k) \o "|" \o (IF v = "" THEN "ok" ELSE v))
           /\ pos' = -1 /\ UNCHANGED <<k, ms, cfg, s, bad>>
Next == Read \/ Ask \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
