----------------------------- MODULE Evaluator -----------------------------
(* An evaluator that a program keeps and calls: tokens, sentences and whole *)
(* texts one after the other, and what can be asked of it in between.  A    *)
(* call is a record op, and w (its tokens) or n; the state is e.cfg, e.s    *)
(* (Perplexity), e.lp (of all texts read so far) and e.told (what the hit   *)
(* rates counted when they were last forgotten); e.out is the answer.       *)
EXTENDS Perplexity
Fresh(cfg) == [cfg |-> cfg, s |-> Start(cfg), lp |-> 0, hits |-> [i \in 1..cfg.order |-> 0], out |-> <<>>]

\* tokens one after the other: state and sum of what they gave
Fold(cfg, s, ws, score(_)) ==
    FoldLeft(LAMBDA r, w : LET t == Token(cfg, r.s, w, score) IN [s |-> t, lp |-> r.lp + t.out.lp],
             [s |-> s, lp |-> 0], ws)

Call(e, c, score(_)) ==
    LET r == Fold(e.cfg, e.s, c.w, score)
    IN CASE c.op = "token" -> [e EXCEPT !.s = r.s, !.out = <<r.s.out.lp>>]
         [] c.op = "word" -> [e EXCEPT !.s = r.s, !.out = <<r.s.out.word>>]
         [] c.op = "both" -> [e EXCEPT !.s = r.s, !.out = <<r.s.out.lp, r.s.out.word>>]
         \* a sentence's cost is positive
         [] c.op = "sent" -> [e EXCEPT !.s = r.s, !.out = <<-r.lp>>]
         [] c.op = "file" -> [e EXCEPT !.s = r.s, !.lp = @ + r.lp, !.out = <<e.lp + r.lp>>]
         \* the words before are forgotten, the counts are not
         [] c.op = "clear" -> [e EXCEPT !.s.h = <<>>, !.s.cur = e.cfg.init, !.out = <<>>]
         [] c.op = "init" -> [e EXCEPT !.cfg.init = c.n, !.s.cur = c.n, !.out = <<>>]
         [] c.op = "reset" -> [e EXCEPT !.hits = e.s.hits, !.out = <<>>]
         [] c.op = "stats" -> [e EXCEPT !.out = <<e.s.scored, e.s.words, e.s.tunks>> \o
                [i \in 1..(c.n + 1) |-> IF i = 1 THEN SumOver(DOMAIN e.hits, LAMBDA o : e.s.hits[o] - e.hits[o])
                                        ELSE IF i - 1 \in DOMAIN e.hits THEN e.s.hits[i - 1] - e.hits[i - 1] ELSE 0]]
=============================================================================
