---------------------------- MODULE MC_Evaluator ----------------------------
(* Every short sequence of calls, beside a second evaluator that is made    *)
(* anew whenever the first one forgets its words.                           *)
EXTENDS Evaluator, Json
CONSTANTS MaxLen
Tokens == {"a", "a+", "z", "</s>"}
Spelling == ("a" :> <<"a">>) @@ ("b" :> <<"b">>) @@ ("a+" :> <<"a", "+">>) @@ ("z" :> <<"z">>)
            @@ ("<s>" :> <<"<", "s", ">">>) @@ ("</s>" :> <<"<", "/", "s", ">">>)
Cfgs == {[order |-> 2, vocab |-> {"a", "b", "a+", "<s>", "</s>"}, wb |-> w, breaks |-> {"b", "</s>"},
          marks |-> <<[at |-> "end", text |-> <<"+">>]>>, cues |-> {}, skip |-> k, init |-> 0, chars |-> Spelling] :
         w \in {"each", "listed", "marks"}, k \in BOOLEAN}
Texts == {<<>>, <<"a", "</s>">>, <<"</s>", "a", "z">>}
Calls == [op : {"token", "word"}, w : {<<t>> : t \in Tokens}, n : {0}]
         \cup [op : {"sent", "file"}, w : Texts, n : {0}]
         \cup [op : {"clear", "reset"}, w : {<<>>}, n : {0}]
         \cup [op : {"init"}, w : {<<>>}, n : {0, 1, 2}]
         \cup [op : {"stats"}, w : {<<>>}, n : {3}]
Cost(w) == CASE w = "a" -> -1 [] w = "b" -> -8 [] w = "a+" -> -64 [] w = "<s>" -> -512 [] w = "</s>" -> -4096 [] OTHER -> -32768
Score(g) == [lp |-> Cost(Last1(g)) * (IF Len(g) = 1 THEN 1 ELSE 3), ord |-> Len(g)]
VARIABLES e, f, log
vars == <<e, f, log>>
Init == \E c \in Cfgs : e = Fresh(c) /\ f = Fresh(c) /\ log = <<>>
Step == /\ Len(log) < MaxLen
        /\ \E c \in Calls : /\ e' = Call(e, c, Score) /\ log' = Append(log, c)
                            \* between words, forgetting is as good as a new evaluator
                            /\ f' = IF c.op = "clear" THEN
                                      [Fresh(e'.cfg) EXCEPT !.s.cw = e.s.cw, !.s.broken = e.s.broken]
                                    ELSE Call(f, c, Score)
Spec == Init /\ [][Step]_vars
L == log[Len(log)]
\* nothing of what was before
Forgets == log # <<>> /\ L.op \in {"token", "word", "sent"} => e.out = f.out
\* the texts' sum is what was answered for each
Sums == log # <<>> /\ L.op = "file" => e.out = <<e.lp>> /\ e.lp <= 0
Stats == log # <<>> /\ L.op = "stats" =>
            /\ e.out[1] = e.s.scored
            /\ e.out[4] = e.out[5] + e.out[6] /\ e.out[7] = 0
            /\ e.out[4] <= e.out[1]
            /\ (\A i \in DOMAIN log : log[i].op # "reset") => e.out[4] = e.out[1]
\* every token is one thing
Partition == e.s.scored + e.s.initial + (IF e.cfg.skip THEN e.s.tunks ELSE 0) = SumOver(DOMAIN log, LAMBDA i : Len(log[i].w))
Emit == Len(log) = MaxLen /\ L.op \notin {"clear", "reset", "init"} =>
          PrintT("CASE|" \o ToJson([wb |-> e.cfg.wb, skip |-> e.cfg.skip, calls |-> log]))
=============================================================================
