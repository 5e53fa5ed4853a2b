------------------------------ MODULE MC_HeldOut ------------------------------
(* The search along one discount, for every convex measure and every small *)
(* measure at all, every start range and every choice of probes.           *)
EXTENDS HeldOut
CONSTANTS N,          \* the limits are 0 and N
          Offset,     \* slopes of the convex measures range from 1 - Offset
          Small,      \* the values of the other measures
          Loose       \* probes may fall outside the range
VARIABLES f, r, at, start
vars == <<f, r, at, start>>

Slopes == {1 - Offset, -1, 0, 1, Offset}
Sum(s, i) == FoldSet(LAMBDA j, a : a + s[j], 0, 1..i)
Convexes == {[x \in 0..N |-> Sum(s, x)] : s \in {t \in [1..N -> Slopes] : \A i \in 1..(N - 1) : t[i] <= t[i + 1]}}
Anyhow == {[x \in 0..N |-> IF x > 4 THEN g[4] ELSE g[x]] : g \in [0..4 -> Small]}
Convex == \A x \in 1..(N - 1) : f[x + 1] - f[x] >= f[x] - f[x - 1]

Init == /\ f \in Convexes \cup Anyhow
        /\ r \in {[l1 |-> a, l2 |-> b, l3 |-> c] : a \in 0..N, b \in 0..N, c \in 0..N}
        /\ r.l1 < r.l2 /\ r.l2 < r.l3
        /\ at = "widen" /\ start = r.l2
Widen == /\ at = "widen"
         /\ r' = SWiden(r, f, 0, N)
         /\ at' = IF r' = r THEN "narrow" ELSE "widen"
         /\ UNCHANGED <<f, start>>
Close == r.l3 - r.l1 <= 2
Narrow == /\ at = "narrow" /\ ~Close
          /\ IF SValley(r, f)
             THEN \E l \in (IF Loose THEN 0..N ELSE (r.l1 + 1)..(r.l3 - 1)) \ {r.l2} : r' = SProbe(r, f, l)
             ELSE r' = SHalve(r, f)
          /\ UNCHANGED <<f, at, start>>
Finish == at = "narrow" /\ Close /\ at' = "done" /\ UNCHANGED <<f, r, start>>
Next == Widen \/ Narrow \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Inside == 0 <= r.l1 /\ r.l1 <= r.l2 /\ r.l2 <= r.l3 /\ r.l3 <= N
Lowest == {x \in 0..N : \A y \in 0..N : f[x] <= f[y]}
\* once the range has been placed it holds a best point
Holds == (Convex /\ at # "widen") => \E x \in Lowest : r.l1 <= x /\ x <= r.l3
\* what is found is never worse than what the search began with
NoWorse == (Convex /\ at = "done") => f[r.l2] <= f[start]
\* every step of the second part narrows the range
Narrows == [][(at = "narrow" /\ at' = "narrow") => r'.l3 - r'.l1 < r.l3 - r.l1]_vars
Ends == <>(at = "done")
=============================================================================
