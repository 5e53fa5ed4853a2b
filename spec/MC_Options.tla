----------------------------- MODULE MC_Options -----------------------------
(* Every command line over an alphabet of arguments, up to a length, under *)
(* a table with every sort of option.                                      *)
EXTENDS Options, Json
CONSTANTS MaxLen, Args
VARIABLES argv, s, consumed
vars == <<argv, s, consumed>>

Opt(sh, lg, a, m, d) == [short |-> sh, long |-> lg, arg |-> a, must |-> m, dflt |-> d]
Table == <<Opt("h", <<"h", "e", "l", "p">>, FALSE, FALSE, <<>>),
           Opt("f", <<"f", "l">>, FALSE, FALSE, <<>>),
           Opt("i", <<"i", "n", "=", "I">>, TRUE, FALSE, <<"7">>),
           Opt("s", <<>>, TRUE, TRUE, <<>>),
           Opt("", <<"x">>, FALSE, FALSE, <<>>)>>
Num == 1
A(n) == CASE n = "dash" -> <<"-">> [] n = "end" -> <<"-", "-">> [] n = "a" -> <<"a">>
          [] n = "empty" -> <<>>
          [] n = "f" -> <<"-", "f">> [] n = "i" -> <<"-", "i">> [] n = "s" -> <<"-", "s">>
          [] n = "fi" -> <<"-", "f", "i">> [] n = "si" -> <<"-", "s", "i">> [] n = "sf" -> <<"-", "s", "f">>
          [] n = "fx" -> <<"-", "f", "x">> [] n = "i1" -> <<"-", "i", "1">> [] n = "h" -> <<"-", "h">>
          [] n = "Lin" -> <<"-", "-", "i", "n">> [] n = "Lineq" -> <<"-", "-", "i", "n", "=", "5">>
          [] n = "Linempty" -> <<"-", "-", "i", "n", "=">>
          [] n = "Lfl" -> <<"-", "-", "f", "l">> [] n = "Lfleq" -> <<"-", "-", "f", "l", "=", "1">>
          [] n = "Lx" -> <<"-", "-", "x">> [] n = "Li" -> <<"-", "-", "i">> [] n = "Linn" -> <<"-", "-", "i", "n", "n">>

Init == argv = <<>> /\ s = Fresh(Table) /\ consumed = [opt |-> 0, val |-> 0, arg |-> 0, mark |-> 0]
Read == /\ Len(argv) < MaxLen /\ s.status = "ok"
        /\ \E n \in Args : LET a == A(n) t == Step(Table, s, a, TRUE) IN
             /\ argv' = Append(argv, a) /\ s' = t
             /\ consumed' = CASE t.args # s.args -> [consumed EXCEPT !.arg = @ + 1]
                              [] s.pend # <<>> /\ t.status = "ok" -> [consumed EXCEPT !.val = @ + 1]
                              [] ~t.allowed /\ s.allowed -> [consumed EXCEPT !.mark = @ + 1]
                              [] OTHER -> [consumed EXCEPT !.opt = @ + 1]
Next == Read
Spec == Init /\ [][Next]_vars

\* every argument has exactly one role
Roles == consumed.opt + consumed.val + consumed.arg + consumed.mark = Len(argv)
         /\ Len(s.args) = consumed.arg /\ consumed.mark <= 1
\* arguments keep their order
RECURSIVE SubSeqOf(_, _)
SubSeqOf(x, y) == IF x = <<>> THEN TRUE ELSE IF y = <<>> THEN FALSE
                  ELSE IF Head(x) = Head(y) THEN SubSeqOf(Tail(x), Tail(y)) ELSE SubSeqOf(x, Tail(y))
InOrder == SubSeqOf(s.args, argv)
\* nothing that looks like an option is an argument before the end mark
NoOptionArgs == s.allowed => \A i \in DOMAIN s.args : Len(s.args[i]) <= 1 \/ s.args[i][1] # "-"
\* values only where an option asked for one
Defaults == \A i \in DOMAIN Table : i \notin s.spec => s.val[i] = Table[i].dflt
\* joined short options are the same as separate ones with their values in order
Rejoin == s.status = "ok" /\ s.pend = <<>> /\ s.allowed =>
    \A v \in {<<"a">>, <<"-", "f">>, <<>>} :
      /\ Line(Table, s, <<A("fi"), v>>, TRUE) = Line(Table, s, <<A("f"), A("i"), v>>, TRUE)
      /\ Line(Table, s, <<A("si"), v, <<"9">>>>, TRUE) = Line(Table, s, <<A("s"), v, A("i"), <<"9">>>>, TRUE)
      /\ Line(Table, s, <<A("sf"), v>>, TRUE) = Line(Table, s, <<A("f"), A("s"), v>>, TRUE)
      /\ Line(Table, s, <<A("Lin"), v>>, TRUE) = Line(Table, s, <<A("i"), v>>, TRUE)
      /\ Line(Table, s, <<A("Lin") \o <<"=">> \o v>>, TRUE) = Line(Table, s, <<A("i"), v>>, TRUE)
\* a refused line stays refused
Sticky == [][s.status # "ok" => s'.status # "ok"]_vars
\* what is said on the command line wins over a file read later without override
Wins == s.status = "ok" /\ s.pend = <<>> =>
    LET t == Line(Table, Closed(s), <<A("Lineq"), A("fi"), <<"3">>>>, FALSE)
    IN t.val[3] = (IF 3 \in s.spec THEN s.val[3] ELSE <<"5">>) /\ 2 \in t.spec
Emit == (Len(argv) > 0) => PrintT("CASE|" \o ToJson(
           LET r == Parse(Table, argv, Num) IN [argv |-> argv, status |-> r.status, args |-> r.args,
             val |-> r.val, spec |-> [i \in DOMAIN Table |-> i \in r.spec]]))
=============================================================================
