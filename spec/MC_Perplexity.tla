---------------------------- MODULE MC_Perplexity ----------------------------
(* Every short text under every kind of configuration.                     *)
EXTENDS Perplexity, Json
CONSTANTS MaxLen
Tokens == {"a", "b", "a+", "z+", "z", "<s>", "</s>"}
Spelling == ("a" :> <<"a">>) @@ ("b" :> <<"b">>) @@ ("a+" :> <<"a", "+">>) @@ ("z+" :> <<"z", "+">>) @@ ("z" :> <<"z">>)
            @@ ("<s>" :> <<"<", "s", ">">>) @@ ("</s>" :> <<"<", "/", "s", ">">>)
Vocab0 == {"a", "b", "a+", "<s>", "</s>"}
Cfgs == {[order |-> o, vocab |-> Vocab0, wb |-> w, breaks |-> {"b", "</s>"},
          marks |-> <<[at |-> "end", text |-> <<"+">>]>>, cues |-> c, skip |-> k, init |-> t, chars |-> Spelling] :
         o \in {1, 2}, w \in {"each", "listed", "marks"}, c \in {{}, {"<s>"}, {"a"}}, k \in BOOLEAN, t \in 0..2}
VARIABLES cfg, s, text
vars == <<cfg, s, text>>
Init == cfg \in {c \in Cfgs : c.init = 0 \/ c.cues = {}} /\ s = Start(cfg) /\ text = <<>>
\* every token costs a different power of eight
Cost(w) == CASE w = "a" -> -1 [] w = "b" -> -8 [] w = "a+" -> -64 [] w = "<s>" -> -512 [] w = "</s>" -> -4096 [] OTHER -> -32768
Read == /\ Len(text) < MaxLen
        /\ \E w \in Tokens : /\ text' = Append(text, w)
                             /\ s' = Token(cfg, s, w, LAMBDA g : [lp |-> Cost(Last1(g)), ord |-> Len(g)])
        /\ UNCHANGED cfg
Spec == Init /\ [][Read]_vars
Short == Len(text) < MaxLen

Count(P(_)) == Cardinality({i \in DOMAIN text : P(i)})
RECURSIVE IsInit(_)
\* i is a token of initial history, told from the text alone
IsInit(i) == LET e == {j \in 1..(i - 1) : text[j] = "</s>" /\ ~IsInit(j)}
             IN i - Max({0} \cup e) <= cfg.init
Unknown(i) == text[i] \notin Vocab0
\* every token is exactly one thing
Partition == /\ Len(text) = s.scored + s.ccs + s.initial + (IF cfg.skip THEN s.tunks ELSE 0)
             /\ s.initial = Count(IsInit)
             /\ s.tunks = Count(LAMBDA i : ~IsInit(i) /\ Unknown(i))
             /\ s.ccs = Count(LAMBDA i : ~IsInit(i) /\ text[i] \in cfg.cues)
\* every word end is counted once: as a word or as an unknown word
WordEnds == Count(LAMBDA i : Ends(cfg, text[i]) /\ (IF IsInit(i) THEN text[i] # "<s>" ELSE text[i] \notin cfg.cues))
WordCount == s.words + (IF cfg.skip THEN s.unks ELSE 0) = WordEnds
\* the log-probability of the scored tokens is that of the words kept, of
\* the word not yet ended, and of the words dropped for unknown tokens
Shares == /\ s.toklp <= s.wordlp + s.cw
          /\ (~cfg.skip \/ s.tunks = 0) => s.toklp = LogProb(s)
          /\ s.toklp = SumOver({i \in DOMAIN text : ~IsInit(i) /\ text[i] \notin cfg.cues /\ (cfg.skip => ~Unknown(i))},
                               LAMBDA i : Cost(IF Unknown(i) THEN UnkW ELSE text[i]))
Hits == s.scored = SumOver(DOMAIN s.hits, LAMBDA o : s.hits[o])
History == Len(s.h) <= cfg.order
Emit == Len(text) = MaxLen => PrintT("CASE|" \o ToJson([text |-> text, wb |-> cfg.wb, order |-> cfg.order,
          cues |-> SetToSeq(cfg.cues), skip |-> cfg.skip, init |-> cfg.init]))
=============================================================================
