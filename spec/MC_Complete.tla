----------------------------- MODULE MC_Complete -----------------------------
(* All small models, prefix-closed or not, of both kinds.                  *)
EXTENDS Complete, Json
CONSTANTS Size
Ws == {"a", "b"}
Keys == {<<x>> : x \in Ws} \cup {<<x, y>> : x \in Ws, y \in Ws} \cup {<<x, y, x>> : x \in Ws, y \in Ws} \cup {<<"a", "a", "b">>}
Vals == {One \div 8, One \div 2}
VARIABLES m, left
vars == <<m, left>>
Init == m \in {[p |-> <<>>, w |-> <<>>, inter |-> i] : i \in BOOLEAN} /\ left = Keys
\* list n-grams in one fixed order
Next == /\ left # {} /\ Cardinality(DOMAIN m.p) < Size
        /\ \E g \in left :
           /\ \E v \in Vals : \/ m' = [m EXCEPT !.p = (g :> v) @@ @]
                              \/ Len(g) < 3 /\ m' = [m EXCEPT !.p = (g :> v) @@ @, !.w = (g :> One \div 4) @@ @]
           /\ left' = {h \in left : Len(h) > Len(g) \/ (Len(h) = Len(g) /\ h # g /\ \E i \in DOMAIN g : g[i] = "a" /\ h[i] = "b" /\ \A j \in 1..(i-1) : g[j] = h[j])}
Spec == Init /\ [][Next]_vars
R == Completed(m, Ws)
Queries == Keys \cup {<<x, y, z>> : x \in Ws, y \in Ws, z \in Ws} \cup {<<"b", "a", "a", "b">>}
Closed == PrefixClosed(R) /\ \A x \in Ws : <<x>> \in DOMAIN R.p
Same == \A q \in Queries : LinProb(R, q) = LinProb(m, q)
Keeps == \A g \in DOMAIN m.p : R.p[g] = m.p[g]
Idem == Completed(R, Ws) = R
Pairs(f) == [i \in 1..Cardinality(DOMAIN f) |-> LET x == SetToSeq(DOMAIN f)[i] IN <<x, f[x]>>]
Emit == DOMAIN m.p = {} \/ PrintT("CASE|" \o ToJson([p |-> Pairs(m.p), w |-> Pairs(m.w), inter |-> m.inter]))
=============================================================================
