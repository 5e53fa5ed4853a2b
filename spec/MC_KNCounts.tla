---------------------------- MODULE MC_KNCounts ----------------------------
(* Exhaustive exploration of training on every text up to MaxLen tokens,   *)
(* followed by every possible choice of pruned n-grams and cutoffs.        *)
EXTENDS KNCounts, Json
CONSTANTS Words, MaxLen, Orders, MaxPrune
VARIABLES phase, text, win, c, b, cfg, o, npruned, base
vars == <<phase, text, win, c, b, cfg, o, npruned, base>>

Init == /\ phase = "read" /\ text = <<>> /\ win = <<>>
        /\ c = Empty /\ b = <<>> :> NoBo
        /\ cfg \in [n : Orders, absolute : BOOLEAN, clear : BOOLEAN]
        /\ o = cfg.n /\ npruned = 0 /\ base = Empty

Read == /\ phase = "read" /\ Len(text) < MaxLen
        /\ \E w \in Words :
             LET v == NextWindow(win, w, cfg.n, cfg.clear)
             IN text' = Append(text, w) /\ win' = v /\ c' = Bump(c, v, 1)
        /\ UNCHANGED <<phase, b, cfg, o, npruned, base>>
EndOfText == /\ phase = "read" /\ text # <<>> /\ phase' = "est"
             /\ UNCHANGED <<text, win, c, b, cfg, o, npruned, base>>
Estimate == /\ phase = "est" /\ o >= 1
            /\ LET r == EstimateOrder(c, b, o, cfg.absolute) IN c' = r.c /\ b' = r.b
            /\ o' = o - 1
            /\ UNCHANGED <<phase, text, win, cfg, npruned, base>>
Classes == /\ phase = "est" /\ o = 0
           /\ b' = ClassesOf(c, b) /\ phase' = "prune" /\ o' = cfg.n /\ base' = c
           /\ UNCHANGED <<text, win, c, cfg, npruned>>
\* prune one n-gram of the current order, with or without restoring lower orders
Prune == /\ phase = "prune" /\ o >= 2 /\ npruned < MaxPrune
         /\ \E g \in GramsOf(c, o), adj \in BOOLEAN :
              /\ (adj => ~cfg.absolute)
              /\ LET r == PruneOne([c |-> c, b |-> b], g, adj) IN c' = r.c /\ b' = r.b
         /\ npruned' = npruned + 1
         /\ UNCHANGED <<phase, text, win, cfg, o, base>>
NextOrder == /\ phase = "prune" /\ o >= 2 /\ o' = o - 1
             /\ UNCHANGED <<phase, text, win, c, b, cfg, npruned, base>>
Next == Read \/ EndOfText \/ Estimate \/ Classes \/ Prune \/ NextOrder
Spec == Init /\ [][Next]_vars

s == [c |-> c, b |-> b]
\* every distribution of the model sums to one, at every moment of pruning
Mass == phase = "prune" => MassOK(s)

\* --- the closed forms users know ---------------------------------------
Occ(g) == \* occurrences of g in the text, within sentences if clear
    Cardinality({i \in 1..(Len(text) - Len(g) + 1) :
        /\ SubSeq(text, i, i + Len(g) - 1) = g
        /\ cfg.clear => \A j \in (i+1)..(i + Len(g) - 1) : text[j] # SentStart})
\* could another word have preceded the occurrence?
StartOcc(g) == \* occurrences with no left context in the window
    Cardinality({i \in 1..(Len(text) - Len(g) + 1) :
        /\ SubSeq(text, i, i + Len(g) - 1) = g
        /\ cfg.clear => \A j \in (i+1)..(i + Len(g) - 1) : text[j] # SentStart
        /\ i = 1 \/ (cfg.clear /\ text[i] = SentStart)})
AllGrams == UNION {[1..k -> Words] : k \in 1..cfg.n}
LeftKinds(g) == Cardinality({w \in Words : Len(g) < cfg.n /\ Occ(<<w>> \o g) > 0})
\* the number of distinct left contexts (plus occurrences that have none)
Textbook == (phase = "prune" /\ npruned = 0) =>
    \A g \in AllGrams :
       Get(c, g) = IF cfg.absolute \/ Len(g) = cfg.n THEN Occ(g)
                   ELSE LeftKinds(g) + StartOcc(g)
\* pruning nothing leaves the tables alone; total mass never grows
Untouched == (phase = "prune" /\ npruned = 0) => c = base
NoNegative == \A g \in DOMAIN c : c[g] >= 0
\* the result does not depend on the order in which n-grams are visited
Commute == phase = "prune" /\ o >= 2 /\ npruned = 0 =>
    \A g1, g2 \in GramsOf(c, o), adj \in BOOLEAN : g1 # g2 /\ (adj => ~cfg.absolute) =>
      LET x == PruneOne(PruneOne(s, g1, adj), g2, adj)
          y == PruneOne(PruneOne(s, g2, adj), g1, adj)
      IN Norm(x.c) = Norm(y.c) /\ NormBo(x.b) = NormBo(y.b)
\* emit every finished training run, for replay into the real program
Emit == (phase = "prune" /\ o = cfg.n /\ npruned = 0) =>
    PrintT("CASE|" \o ToJson([text |-> text, n |-> cfg.n, absolute |-> cfg.absolute, clear |-> cfg.clear,
        counts |-> SetToSeq({<<g, c[g]>> : g \in {x \in DOMAIN c : c[x] # 0}}),
        bos |-> SetToSeq({<<h, b[h].nz1, b[h].nz2, b[h].nz3, b[h].den, b[h].pruned>> : h \in DOMAIN b})]))
=============================================================================
