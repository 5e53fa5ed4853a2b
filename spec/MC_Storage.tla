----------------------------- MODULE MC_Storage -----------------------------
(* The scan with a window of the last words, as the implementation does it  *)
(* over data in memory and over the file read again, against the words      *)
(* that follow a history by definition.  With Narrow the words are stored   *)
(* modulo Words, which loses the text.                                      *)
EXTENDS Storage
CONSTANTS Words, MaxLen, MaxOrder, Narrow
Text == UNION {[1..l -> 1..Words] : l \in 1..MaxLen}
None == -1
VARIABLES d, c, n, i, v, lists, grams, phase
vars == <<d, c, n, i, v, lists, grams, phase>>
Hist == [1..(n-1) -> 1..Words]
Init == /\ d \in Text /\ c \in {None, 1} /\ n \in 2..MaxOrder
        /\ i = 0 /\ v = <<>> /\ phase = "scan"
        /\ lists = [h \in Hist |-> <<>>] /\ grams = [g \in [1..n -> 1..Words] |-> 0]
Stored(w) == IF Narrow THEN (w % Words) + (IF w % Words = 0 THEN 1 ELSE 0) ELSE w
\* one word: the window grows to n words and then moves on by one
Scan == /\ phase = "scan" /\ i < Len(d)
        /\ LET w == Stored(d[i + 1])
               base == IF w = c THEN <<>> ELSE v
               u == Append(base, w)
           IN IF Len(u) = n
              THEN /\ lists' = [lists EXCEPT ![SubSeq(u, 1, n - 1)] = Append(@, w)]
                   /\ grams' = [grams EXCEPT ![u] = @ + 1]
                   /\ v' = Tail(u)
              ELSE v' = u /\ UNCHANGED <<lists, grams>>
        /\ i' = i + 1 /\ UNCHANGED <<d, c, n, phase>>
End == phase = "scan" /\ i = Len(d) /\ phase' = "done" /\ UNCHANGED <<d, c, n, i, v, lists, grams>>
Next == Scan \/ End
Spec == Init /\ [][Next]_vars
Follow == phase = "done" => \A h \in Hist : lists[h] = After(d, c, h)
Occur == phase = "done" => \A g \in DOMAIN grams : grams[g] = Occurrences(d, c, g)
\* every n-gram is found once in the list of its history
Once == phase = "done" => \A g \in DOMAIN grams :
            grams[g] = Cardinality({k \in DOMAIN lists[SubSeq(g, 1, n - 1)] : lists[SubSeq(g, 1, n - 1)][k] = g[n]})
=============================================================================
