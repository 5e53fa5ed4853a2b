-------------------------- MODULE MC_SizeTarget --------------------------
EXTENDS SizeTarget, TLC
CONSTANTS N,        \* n-grams above the unigrams
          Uni,      \* unigrams
          K,        \* the highest cost
          Guard     \* stop when only unigrams are left
VARIABLES cost, target, alive, scale, round, prev, phase
vars == <<cost, target, alive, scale, round, prev, phase>>
Grams == 1..N
Top == 4 * K
size(S) == Uni + Cardinality(S)
Min2(a, b) == IF a < b THEN a ELSE b

Init == /\ cost \in [Grams -> 1..K] /\ \A i, j \in Grams : i < j => cost[i] <= cost[j]
        /\ target \in 1..(Uni + N)
        /\ alive = Grams /\ scale = 1 /\ round = 0 /\ prev = Grams /\ phase = "rounds"
More == Over(size(alive), target) /\ ~(Guard /\ alive = {})
\* the limit grows by at least one step and at most doubles
Round == /\ phase = "rounds" /\ More
         /\ \E s \in (IF round = 0 THEN {scale} ELSE (scale + 1)..(2 * scale)) :
              /\ scale' = Min2(s, Top)
              /\ \E gone \in SUBSET alive :
                   /\ {g \in alive : cost[g] <= scale'} \subseteq gone
                   \* removing some makes others dearer or cheaper: within twice the cost
                   /\ \A g \in gone : cost[g] <= 2 * scale'
                   /\ alive' = alive \ gone
         /\ prev' = alive /\ round' = Min2(round + 1, 1)
         /\ UNCHANGED <<cost, target, phase>>
Stop == /\ phase = "rounds" /\ ~More
        /\ phase' = "done" /\ UNCHANGED <<cost, target, alive, scale, round, prev>>
Next == Round \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Fits == phase = "done" => Reached(size(alive), Uni, target)
Untouched == ~Over(size(Grams), target) => alive = Grams
\* the last round was needed
Needed == round > 0 => Over(size(prev), target)
Shrinks == [][RoundOK(alive, alive')]_vars
Ends == <>(phase = "done")
=============================================================================
