----------------------------- MODULE Perplexity -----------------------------
(* Evaluation of a text, token by token.  A configuration cfg says         *)
(*   order, vocab   of the model; a token outside vocab is unknown          *)
(*   wb             "each" token is a word, words end at "listed" tokens,  *)
(*                  or at tokens without morph "marks"                     *)
(*   breaks, marks, cues, skip (unknowns are dropped), init (tokens of     *)
(*   known history after each sentence end), chars (spelling of tokens)    *)
(* and the state s is what has been counted so far.                        *)
EXTENDS NgramModel
UnkW == "<UNK>"

Start(cfg) == [h |-> <<>>, cur |-> cfg.init,
               scored |-> 0, tunks |-> 0, ccs |-> 0, initial |-> 0, \* tokens
               words |-> 0, unks |-> 0, ends |-> 0,
               cw |-> 0,            \* of the word so far
               broken |-> FALSE,    \* the word so far has an unknown token
               wordlp |-> 0, toklp |-> 0, hits |-> [i \in 1..cfg.order |-> 0],
               out |-> [lp |-> 0, ord |-> 0, word |-> 0]]

StartsWith(x, y) == Len(x) >= Len(y) /\ SubSeq(x, 1, Len(y)) = y
EndsWith(x, y) == Len(x) >= Len(y) /\ SubSeq(x, Len(x) - Len(y) + 1, Len(x)) = y
Marked(cfg, w) == \E i \in DOMAIN cfg.marks :
    LET k == cfg.marks[i]
    IN IF k.at = "start" THEN StartsWith(cfg.chars[w], k.text) ELSE EndsWith(cfg.chars[w], k.text)
\* does the token end a word
Ends(cfg, w) == CASE cfg.wb = "each" -> TRUE
                  [] cfg.wb = "listed" -> w \in cfg.breaks
                  [] cfg.wb = "marks" -> ~Marked(cfg, w)

\* score(g): log-probability and order of the last word of g
Token(cfg, s, w, score(_)) ==
    LET known == w \in cfg.vocab
        g == IF known THEN w ELSE UnkW
        h0 == IF s.cur > 0 /\ s.cur = cfg.init THEN <<>>
              ELSE IF Len(s.h) = cfg.order THEN Tail(s.h) ELSE s.h
        t == [s EXCEPT !.h = Append(h0, g), !.out = [lp |-> 0, ord |-> 0, word |-> 0]]
        \* a sentence end opens the next initial history
        u == IF w = "</s>" THEN [t EXCEPT !.cur = cfg.init, !.ends = @ + 1] ELSE t
    IN IF s.cur > 0
       THEN [t EXCEPT !.cur = @ - 1, !.initial = @ + 1,
                      !.words = @ + (IF w # "<s>" /\ Ends(cfg, w) THEN 1 ELSE 0)]
       ELSE IF ~known /\ cfg.skip
       THEN LET v == [u EXCEPT !.tunks = @ + 1]
            IN IF cfg.wb = "each" THEN [v EXCEPT !.unks = @ + 1]
               ELSE IF Ends(cfg, w)
               THEN [v EXCEPT !.unks = @ + 1, !.broken = FALSE, !.cw = 0]
               ELSE [v EXCEPT !.broken = TRUE]
       ELSE IF w \in cfg.cues
       THEN [u EXCEPT !.ccs = @ + 1]
       ELSE LET r == score(Append(h0, g))
                cw == s.cw + r.lp
                v == [u EXCEPT !.scored = @ + 1, !.toklp = @ + r.lp, !.hits[r.ord] = @ + 1,
                               !.tunks = @ + (IF known THEN 0 ELSE 1), !.cw = cw,
                               !.broken = @ \/ ~known, !.out = [lp |-> r.lp, ord |-> r.ord, word |-> 0]]
            IN IF ~Ends(cfg, w) THEN v
               ELSE IF v.broken /\ cfg.skip
               THEN [v EXCEPT !.unks = @ + 1, !.broken = FALSE, !.cw = 0]
               ELSE [v EXCEPT !.unks = @ + (IF v.broken THEN 1 ELSE 0), !.broken = FALSE, !.cw = 0,
                              !.words = @ + 1, !.wordlp = @ + cw, !.out.word = cw]
\* a last word without its end still has its probability
LogProb(s) == s.wordlp + s.cw
=============================================================================
