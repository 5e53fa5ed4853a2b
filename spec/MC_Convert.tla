------------------------------ MODULE MC_Convert ------------------------------
(* All small interpolated models, normalized or not.                       *)
EXTENDS Convert
CONSTANTS Grain, Deep
Ws == {"a", "b"}
E8(i) == i * (One \div Grain)
Uni == {d \in [Ws -> 1..(Grain - 1)] : SumOver(Ws, LAMBDA x : d[x]) <= Grain}
Lists == UNION {[s -> 0..(Grain \div 2)] : s \in (SUBSET Ws) \ {{}}}
VARIABLES m, depth
vars == <<m, depth>>
Init == \E d \in Uni : m = [p |-> [g \in {<<x>> : x \in Ws} |-> E8(d[g[1]])], w |-> <<>>, inter |-> TRUE] /\ depth = 1
\* list some words after the context h, with any weight
Add(h) == \E l \in Lists : \E wt \in {0, Grain \div 4, Grain - SumOver(DOMAIN l, LAMBDA y : l[y]), Grain} :
    /\ wt >= 0
    /\ m' = [m EXCEPT !.p = [g \in {Append(h, x) : x \in DOMAIN l} |-> E8(l[Last1(g)])] @@ @,
                      !.w = (h :> E8(wt)) @@ @]
Next == \/ depth = 1 /\ Add(<<"a">>) /\ depth' = 2
        \/ depth = 2 /\ Deep /\ (Add(<<"b">>) \/ \E x \in Ws : <<"a", x>> \in DOMAIN m.p /\ Add(<<"a", x>>)) /\ depth' = 3
Spec == Init /\ [][Next]_vars
B == ToBackoff(m)
Queries == {<<x, y, z>> : x \in Ws, y \in Ws, z \in Ws}
Same == \A q \in Queries : Agree(m, B, q, 0) /\ Agree(m, B, Tail(q), 0)
\* normalized where it was
Total(mm, h) == SumAfter(mm, h, Ws)
Normal == \A h \in Followed(m) : AbsV(Total(m, h) - Total(B, h)) <= 4
Idem == \A g \in DOMAIN B.p : LinBo(B, g) = B.p[g]
=============================================================================
