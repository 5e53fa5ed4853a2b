------------------------------- MODULE Convert -------------------------------
(* The back-off form of an interpolated model: every listed n-gram gets    *)
(* the full probability it has; the weights stay, where n-grams follow.    *)
EXTENDS NgramModel
Followed(m) == {Hist(g) : g \in {x \in DOMAIN m.p : Len(x) > 1}}
ToBackoff(m) == [p |-> TLCEval([g \in DOMAIN m.p |-> LinInt(m, g)]),
                 w |-> TLCEval([h \in Followed(m) \cap DOMAIN m.w |-> m.w[h]]), inter |-> FALSE]
\* both forms say the same about q
Agree(m, b, q, tol) == AbsV(LinBo(b, q) - LinInt(m, q)) <= tol
=============================================================================
