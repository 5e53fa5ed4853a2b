------------------------------ MODULE Storage ------------------------------
(* The training data as a source of n-grams: what follows a history, and   *)
(* how often an n-gram occurs.  c is the symbol that clears the history    *)
(* (-1: none): an n-gram may begin with it, but not contain it later on.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
At(d, i, g) == i + Len(g) - 1 <= Len(d) /\ \A j \in 1..Len(g) : d[i + j - 1] = g[j]
Uncut(g, c) == \A j \in 2..Len(g) : g[j] # c
Occurrences(d, c, g) == IF Uncut(g, c) THEN Cardinality({i \in DOMAIN d : At(d, i, g)}) ELSE 0
\* the words after history h, in order of the text
Places(d, c, h) == {i \in DOMAIN d : At(d, i, h) /\ i + Len(h) <= Len(d) /\ Uncut(h \o <<d[i + Len(h)]>>, c)}
RECURSIVE Listed(_, _)
Listed(d, P) == IF P = {} THEN <<>>
                ELSE LET i == CHOOSE i \in P : \A j \in P : i <= j
                     IN <<d[i]>> \o Listed(d, P \ {i})
After(d, c, h) == Listed(d, {i + Len(h) : i \in Places(d, c, h)})

\* Which options of a training run only choose how things are stored.  A run
\* is [prog, opts]: opts a set of option letters; mark: the text (or the
\* vocabulary) has the symbol that clears the history
Stores(prog) == IF prog = "varigram_kn" THEN {"s", "L", "H", "S", "T"} ELSE {"s", "L", "H", "T"}
\* -S has not the data that pruning measures with, so it only grows the same
\* model ("V" stands for a target that is never missed, so no pruning); -s
\* fixes the vocabulary before the sentence marks are looked up
Allowed(prog, opts, mark) ==
    /\ ("S" \in opts => "V" \in opts)
    /\ (prog = "counts2kn" /\ "s" \in opts /\ "C" \in opts => mark)
SameModel(prog, o1, o2, mark) ==
    /\ Allowed(prog, o1, mark) /\ Allowed(prog, o2, mark)
    /\ o1 \ Stores(prog) = o2 \ Stores(prog)
=============================================================================
