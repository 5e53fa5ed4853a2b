---------------------------- MODULE SizeTarget ----------------------------
(* Scaling a grown model down to a size target (varigram_kn -V): rounds of *)
(* pruning with a cost limit that rises from round to round, until the     *)
(* model is small enough.  What a round removes is the program's choice;   *)
(* the model only knows that a limit beyond the cost of an n-gram removes  *)
(* it, and that unigrams always stay.                                      *)
EXTENDS Naturals, FiniteSets

\* 3 % above the target is small enough
Over(n, target) == 100 * n > 103 * target
Reached(n, uni, target) == ~Over(n, target) \/ n = uni

(* One round: the alive n-grams before and after. *)
RoundOK(before, after) == after \subseteq before
=============================================================================
