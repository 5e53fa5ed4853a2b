----------------------------- MODULE MC_Fields -----------------------------
(* Every configuration file up to a length over the characters that matter *)
EXTENDS Options, Json
CONSTANTS MaxLen
VARIABLES t
Chars == {"a", " ", "\n", BS, SQ, DQ, "-"}
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E ch \in Chars : t' = Append(t, ch)
Spec == Init /\ [][Next]_t
\* any list of arguments can be said: quote it and it comes back
Back == Split(Quoted(Split(t))) = Split(t)
Whole == Split(Quoted(<<t>>)) = <<t>> /\ Split(Quoted(<<t, <<>>, t>>)) = <<t, <<>>, t>>
InSingle == SQ \notin Range0(t) => Split(<<SQ>> \o t \o <<SQ>>) = <<t>>
InDouble == DQ \notin Range0(t) => Split(<<DQ>> \o t \o <<DQ>>) = <<t>>
\* white space around changes nothing
Trim == Split(<<" ", "\n">> \o t) = Split(t)
Emit == PrintT("CASE|" \o ToJson([t |-> t, fields |-> Split(t)]))
=============================================================================
