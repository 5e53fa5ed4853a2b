----------------------------- MODULE MC_Resume -----------------------------
(* A training run that is written to a count file and taken up again, at   *)
(* any moment of pruning and any number of times, against one that never   *)
(* stopped; and a run that starts from the highest-order counts only.      *)
EXTENDS KNCounts
CONSTANTS Words, MaxLen, Orders, MaxPrune, MaxSave
VARIABLES text, cfg, s, never, file, np, ns
vars == <<text, cfg, s, never, file, np, ns>>

Texts == UNION {[1..m -> Words] : m \in 1..MaxLen}
RECURSIVE CountText(_, _, _, _, _)
CountText(t, i, win, c, n) ==
    IF i > Len(t) THEN c
    ELSE LET v == NextWindow(win, t[i], n, FALSE) IN CountText(t, i + 1, v, Bump(c, v, 1), n)
RECURSIVE Finish(_, _, _)
Finish(st, o, absolute) ==
    IF o = 0 THEN [c |-> st.c, b |-> ClassesOf(st.c, st.b)]
    ELSE Finish(EstimateOrder(st.c, st.b, o, absolute), o - 1, absolute)
Trained(t, n, absolute) == Finish([c |-> CountText(t, 1, <<>>, Empty, n), b |-> <<>> :> NoBo], n, absolute)
FromHighest(t, n, absolute) ==
    LET c == CountText(t, 1, <<>>, Empty, n)
    IN Finish([c |-> [g \in {x \in DOMAIN c : Len(x) = n} |-> c[g]], b |-> <<>> :> NoBo], n, absolute)

\* what a count file says about a context, and what is known after reading it
View(r, three) == IF three THEN <<r.nz1, r.nz2, r.nz3, r.den, r.pruned>>
                  ELSE <<r.nz1 + r.nz2 + r.nz3, r.den, r.pruned>>
Remember(v, three) == IF three THEN [nz1 |-> v[1], nz2 |-> v[2], nz3 |-> v[3], den |-> v[4], pruned |-> v[5]]
                      ELSE [nz1 |-> v[1], nz2 |-> 0, nz3 |-> 0, den |-> v[2], pruned |-> v[3]]
FileOf(st, three) ==
    [counts |-> {<<g, st.c[g]>> : g \in {x \in DOMAIN st.c : st.c[x] # 0}},
     backoffs |-> {<<h, View(st.b[h], three)>> : h \in {x \in DOMAIN st.b : st.b[x].den # 0 \/ x = <<>>}}]
ReadFile(f, three) ==
    [c |-> [g \in {e[1] : e \in f.counts} |-> (CHOOSE e \in f.counts : e[1] = g)[2]],
     b |-> [h \in {e[1] : e \in f.backoffs} |-> Remember((CHOOSE e \in f.backoffs : e[1] = h)[2], three)]]

None == [counts |-> {}, backoffs |-> {}]
Init == /\ text \in Texts
        /\ cfg \in [n : Orders, absolute : BOOLEAN, three : BOOLEAN]
        /\ s = Trained(text, cfg.n, cfg.absolute) /\ never = s
        /\ file = None /\ np = 0 /\ ns = 0
Save == file = None /\ ns < MaxSave /\ file' = FileOf(s, cfg.three) /\ UNCHANGED <<text, cfg, s, never, np, ns>>
Load == file # None /\ s' = ReadFile(file, cfg.three) /\ file' = None /\ ns' = ns + 1
        /\ UNCHANGED <<text, cfg, never, np>>
Prune == /\ file = None /\ np < MaxPrune
         /\ \E g \in {x \in DOMAIN s.c : Len(x) >= 2 /\ s.c[x] # 0 /\
                        ~\E y \in DOMAIN s.c : s.c[y] # 0 /\ Len(y) > Len(x)}, adj \in BOOLEAN :
              /\ (adj => ~cfg.absolute)
              /\ s' = PruneOne(s, g, adj) /\ never' = PruneOne(never, g, adj)
         /\ np' = np + 1 /\ UNCHANGED <<text, cfg, file, ns>>
Next == Save \/ Load \/ Prune
Spec == Init /\ [][Next]_vars

\* stopping in between changes nothing that can be seen
Same == FileOf(s, cfg.three) = FileOf(never, cfg.three)
\* with three discounts the resumed state keeps the books of its classes too
Books == (cfg.three \/ ns = 0) => MassOK(s)
\* the highest-order table alone holds all there is to know but the starts
Highest == LET a == Trained(text, cfg.n, cfg.absolute)
               h == FromHighest(text, cfg.n, cfg.absolute)
           IN np = 0 /\ ns = 0 /\ file = None =>
              /\ MassOK(h)
              /\ \A g \in DOMAIN h.c : h.c[g] <= Get(a.c, g)
              /\ \A g \in DOMAIN a.c : Len(g) = cfg.n => Get(h.c, g) = a.c[g]
              /\ \* what differs is made of n-grams that begin the text
                 \A g \in DOMAIN a.c : Get(h.c, g) # a.c[g] =>
                     \E m \in 0..(cfg.n - 1) : LET w == SubSeq(text, 1, MinOf(m + Len(g), Len(text))) IN
                         Len(w) >= Len(g) /\ SubSeq(w, Len(w) - Len(g) + 1, Len(w)) = g
=============================================================================
