------------------------------ MODULE Complete ------------------------------
(* A model completed to a prefix tree: every word listed, and every prefix *)
(* of a listed n-gram, with the probability it had all along.              *)
EXTENDS NgramModel
Prefixes1(m) == UNION {Heads(g) : g \in DOMAIN m.p}
Completed(m, words) ==
    LET new == (Prefixes1(m) \cup {<<x>> : x \in words} \cup DOMAIN m.w) \ DOMAIN m.p
    IN [m EXCEPT !.p = TLCEval([g \in DOMAIN m.p \cup new |-> IF g \in DOMAIN m.p THEN m.p[g]
                                                      ELSE IF m.inter THEN 0 ELSE LinBo(m, g)])]
=============================================================================
