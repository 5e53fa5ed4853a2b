------------------------- MODULE Trace_SizeTarget -------------------------
(* Runs of varigram_kn with a size target, told by the tables they write   *)
(* and by what they report about their rounds.  A case has the model as    *)
(* grown, the one after a single round of pruning (its limit is the one    *)
(* the first round takes), and the one the run with the target wrote.      *)
EXTENDS SizeTarget, KNCounts, Json, IOUtils, Sequences, TLC
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, phase, i, rec
vars == <<k, phase, i, rec>>
C == Cases[k]
ToMap(s) == [g \in {s[j][1] : j \in DOMAIN s} |-> LET j == CHOOSE j \in DOMAIN s : s[j][1] = g IN s[j][2]]
Rec(r) == [c |-> ToMap(r.counts), b |-> ToMap(r.bos)]

Init == /\ k \in DOMAIN Cases
        /\ phase = "grown" /\ i = 1
        /\ rec = [grown |-> Rec(C.grown), once |-> Rec(C.once), final |-> Rec(C.final)]

\* a sentence start that is never predicted is an n-gram all the same
Size(t) == Cardinality(DOMAIN t.c) + (IF C.clear THEN 1 ELSE 0)
Uni == Cardinality({g \in DOMAIN rec.grown.c : Len(g) = 1}) + (IF C.clear THEN 1 ELSE 0)
Big(t) == ~Reached(Size(t), Uni, C.target)
\* A model as grown may hold n-grams whose count went down to zero; they
\* count until the first round drops them, and are in the report only.
GrownSize == IF C.told /\ C.rounds[1].size > Size(rec.grown) THEN C.rounds[1].size ELSE Size(rec.grown)
Grams(t) == DOMAIN t.c

(* What one step or several leave: no new n-gram, every unigram (lower     *)
(* orders get back what the higher ones no longer take), counts that never *)
(* fall, and tables that add up.                                           *)
AddsUp(t) ==
    LET hs == DOMAIN t.b \cup {Hist(g) : g \in DOMAIN t.c} IN
    \A h \in hs :
       LET G == {g \in DOMAIN t.c : Len(g) = Len(h) + 1 /\ Hist(g) = h}
           n(x) == Cardinality({g \in G : Class(t.c[g]) = x})
           r == IF h \in DOMAIN t.b THEN t.b[h] ELSE IF C.three THEN <<0, 0, 0, 0, 0>> ELSE <<0, 0, 0>>
       IN IF C.three THEN r[1] = n(1) /\ r[2] = n(2) /\ r[3] = n(3) /\ r[4] = SumOver(G, LAMBDA g : t.c[g]) + r[5] /\ r[5] >= 0
          ELSE r[1] = Cardinality(G) /\ r[2] = SumOver(G, LAMBDA g : t.c[g]) + r[3] /\ r[3] >= 0
After(s, t) ==
    IF ~RoundOK(Grams(s), Grams(t)) THEN "an n-gram came back"
    ELSE IF \E g \in Grams(s) \ Grams(t) : Len(g) = 1 THEN "a unigram is gone"
    ELSE IF \E g \in Grams(t) : t.c[g] < s.c[g] \/ (C.absolute /\ t.c[g] # s.c[g]) THEN "a count fell"
    ELSE IF ~AddsUp(t) THEN "the counts of a context do not add up"
    ELSE ""

(* The report: the rounds go from the grown size down to the final one,    *)
(* each of them was needed, and each raised the limit by 5 to 50 %.        *)
R == C.rounds
Limit(j) == R[j].to
RoundBad(j) ==
    \/ R[j].size < R[j + 1].size
    \/ ~Over(R[j].size, C.target)
    \/ j > 1 /\ (105 * R[j].limit > 100 * (R[j + 1].limit + 2) \/ 150 * R[j].limit < 100 * (R[j + 1].limit - 2))

Next ==
  \/ /\ phase = "grown"
     /\ phase' = IF ~Reached(GrownSize, Uni, C.target) \/ (~C.told /\ rec.final # rec.grown) THEN "once" ELSE "same"
     /\ UNCHANGED <<k, i, rec>>
  \/ /\ phase = "once"
     /\ phase' = IF After(rec.grown, rec.once) # "" THEN "bad-once"
                 ELSE IF Big(rec.once) THEN "more" ELSE "stop"
     /\ UNCHANGED <<k, i, rec>>
  \/ /\ phase \in {"same", "stop", "more", "bad-once"}
     /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o
          (CASE phase = "bad-once" -> "one round: " \o After(rec.grown, rec.once)
             [] phase = "same" -> IF rec.final = rec.grown THEN "ok" ELSE "a model within the target was changed"
             [] phase = "stop" -> IF rec.final = rec.once THEN "ok" ELSE "one round was enough, but the model is not the one it leaves"
             [] OTHER -> LET d == After(rec.once, rec.final) IN
                         IF d # "" THEN d
                         ELSE IF Big(rec.final) THEN "the model is above the target: " \o ToString(Size(rec.final))
                         ELSE IF C.told /\ (Len(R) = 0 \/ R[1].size < Size(rec.grown) \/ R[Len(R)].size # Size(rec.final)) THEN "the reported sizes are not those of the models"
                         ELSE IF C.told /\ \E j \in 1..(Len(R) - 1) : RoundBad(j) THEN "a round that was not needed, or a wrong step of the limit"
                         ELSE "ok"))
     /\ phase' = "end" /\ UNCHANGED <<k, i, rec>>
Spec == Init /\ [][Next]_vars
=============================================================================
