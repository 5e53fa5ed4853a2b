------------------------------ MODULE Options ------------------------------
(* The meaning of a command line under a table of options, one argument at *)
(* a time, and of a configuration file.  A character is a string of length *)
(* one, an argument a sequence of characters.  Table entries:              *)
(*   [short |-> char or "", long |-> chars, arg, must |-> BOOLEAN,         *)
(*    dflt |-> chars]                                                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

NoOpt == 0
Range0(f) == {f[i] : i \in DOMAIN f}
\* the key of a long name: what precedes its '='
Upto(s, ch) == LET I == {i \in DOMAIN s : s[i] = ch}
               IN IF I = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in I : \A j \in I : i <= j) - 1)
Key(s) == Upto(s, "=")
ByShort(table, ch) == LET I == {i \in DOMAIN table : table[i].short # "" /\ table[i].short = ch}
                      IN IF I = {} THEN NoOpt ELSE CHOOSE i \in I : TRUE
ByLong(table, name) == LET I == {i \in DOMAIN table : table[i].long # <<>> /\ Key(table[i].long) = name}
                       IN IF I = {} THEN NoOpt ELSE CHOOSE i \in I : TRUE

Fresh(table) == [val |-> [i \in DOMAIN table |-> table[i].dflt],
                 spec |-> {}, args |-> <<>>,
                 pend |-> <<>>,       \* options still waiting for their value
                 allowed |-> TRUE,    \* no end mark yet
                 status |-> "ok"]

\* a set of joined short options
RECURSIVE Joined(_, _, _, _)
Joined(table, s, a, i) ==
    IF i > Len(a) THEN s
    ELSE LET id == ByShort(table, a[i])
         IN IF id = NoOpt THEN [s EXCEPT !.status = "invalid option"]
            ELSE IF table[id].arg THEN Joined(table, [s EXCEPT !.pend = Append(@, id)], a, i + 1)
            ELSE Joined(table, [s EXCEPT !.spec = @ \cup {id}], a, i + 1)

\* a value or a plain argument; override: may a value replace an earlier one
Value(s, a, override) ==
    IF s.pend = <<>> THEN [s EXCEPT !.args = Append(@, a)]
    ELSE LET id == Head(s.pend)
         IN [s EXCEPT !.pend = Tail(@), !.spec = @ \cup {id},
                      !.val[id] = IF id \in s.spec /\ ~override THEN @ ELSE a]

Step(table, s, a, override) ==
    IF s.status # "ok" THEN s
    ELSE IF ~s.allowed \/ s.pend # <<>> \/ Len(a) <= 1 \/ a[1] # "-" THEN Value(s, a, override)
    ELSE IF a = <<"-", "-">> THEN [s EXCEPT !.allowed = FALSE]
    ELSE IF a[2] # "-" THEN Joined(table, s, a, 2)
    ELSE LET body == SubSeq(a, 3, Len(a))
             name == Key(body)
             given == "=" \in Range0(body)
             id == ByLong(table, name)
         IN IF id = NoOpt THEN [s EXCEPT !.status = "invalid option"]
            ELSE IF ~table[id].arg
            THEN IF given THEN [s EXCEPT !.status = "takes no value"] ELSE [s EXCEPT !.spec = @ \cup {id}]
            ELSE LET t == [s EXCEPT !.pend = <<id>>]
                 IN IF given THEN Value(t, SubSeq(body, Len(name) + 2, Len(body)), override) ELSE t

RECURSIVE Steps(_, _, _, _, _)
Steps(table, s, argv, i, override) ==
    IF i > Len(argv) THEN s ELSE Steps(table, Step(table, s, argv[i], override), argv, i + 1, override)
\* every list of arguments stands for itself: the end mark and options
\* waiting for values do not reach into the next one
Closed(s) == IF s.status # "ok" THEN s
             ELSE IF s.pend # <<>> THEN [s EXCEPT !.status = "lacks an argument"]
             ELSE [s EXCEPT !.allowed = TRUE]
Line(table, s, argv, override) == Closed(Steps(table, s, argv, 1, override))

HelpId(table) == ByLong(table, <<"h", "e", "l", "p">>)
\* what is asked of a finished command line: num arguments, mandatory options
Checked(table, s, num) ==
    IF s.status # "ok" THEN s
    ELSE IF HelpId(table) # NoOpt /\ HelpId(table) \in s.spec THEN [s EXCEPT !.status = "help"]
    ELSE IF Len(s.args) # num THEN [s EXCEPT !.status = "wrong number"]
    ELSE IF \E i \in DOMAIN table : table[i].must /\ i \notin s.spec THEN [s EXCEPT !.status = "required"]
    ELSE s
Parse(table, argv, num) == Checked(table, Line(table, Fresh(table), argv, TRUE), num)

(***************************************************************************)
(* A configuration file: arguments separated by white space; backslash,    *)
(* single and double quotes take away the meaning of what they quote.      *)
(***************************************************************************)
White == {" ", "\t", "\n"}
BS == "\\"
SQ == "'"
DQ == "\""
RECURSIVE Fields(_, _, _, _, _)
\* mode: "gap" between fields, "plain", "back", "single", "double"
Fields(t, i, mode, cur, out) ==
    IF i > Len(t) THEN IF mode = "gap" THEN out ELSE Append(out, cur)
    ELSE LET ch == t[i] IN
      CASE mode = "gap" /\ ch \in White -> Fields(t, i + 1, "gap", <<>>, out)
        [] mode = "back" -> Fields(t, i + 1, "plain", Append(cur, ch), out)
        [] mode = "single" -> IF ch = SQ THEN Fields(t, i + 1, "plain", cur, out)
                              ELSE Fields(t, i + 1, "single", Append(cur, ch), out)
        [] mode = "double" -> IF ch = DQ THEN Fields(t, i + 1, "plain", cur, out)
                              ELSE Fields(t, i + 1, "double", Append(cur, ch), out)
        [] mode \in {"gap", "plain"} ->
             IF ch \in White THEN Fields(t, i + 1, "gap", <<>>, Append(out, cur))
             ELSE IF ch = BS THEN Fields(t, i + 1, "back", cur, out)
             ELSE IF ch = SQ THEN Fields(t, i + 1, "single", cur, out)
             ELSE IF ch = DQ THEN Fields(t, i + 1, "double", cur, out)
             ELSE Fields(t, i + 1, "plain", Append(cur, ch), out)
Split(t) == Fields(t, 1, "gap", <<>>, <<>>)
\* a file that says the given arguments
QuoteChar(ch) == <<BS, ch>>
QuoteWord(w) == IF w = <<>> THEN <<SQ, SQ>> ELSE FlattenSeq([i \in DOMAIN w |-> QuoteChar(w[i])])
Quoted(ws) == FlattenSeq([i \in DOMAIN ws |-> QuoteWord(ws[i]) \o <<" ">>])

(***************************************************************************)
(* Whole numbers as values.                                                *)
(***************************************************************************)
Digits == [d \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
             CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4
               [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] d = "9" -> 9]
RECURSIVE Strip(_, _)
Strip(s, C) == IF s # <<>> /\ Head(s) \in C THEN Strip(Tail(s), C) ELSE s
IntForm(s) == LET t == Strip(s, White \cup {"\r", "\f"})
                  body == IF t # <<>> /\ Head(t) \in {"-", "+"} THEN Tail(t) ELSE t
              IN [neg |-> t # <<>> /\ Head(t) = "-", digits |-> Strip(body, {"0"}),
                  ok |-> body # <<>> /\ Range0(body) \subseteq DOMAIN Digits]
\* compare sequences of digits without leading zeros
RECURSIVE DigitsLeq(_, _)
DigitsLeq(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
                   ELSE IF a = <<>> THEN TRUE
                   ELSE IF Digits[Head(a)] # Digits[Head(b)] THEN Digits[Head(a)] < Digits[Head(b)]
                   ELSE DigitsLeq(Tail(a), Tail(b))
MaxInt == <<"2", "1", "4", "7", "4", "8", "3", "6", "4", "7">>
MinInt == <<"2", "1", "4", "7", "4", "8", "3", "6", "4", "8">>
RECURSIVE NumberOf(_, _, _)
NumberOf(d, i, acc) == IF i > Len(d) THEN acc ELSE NumberOf(d, i + 1, 10 * acc + Digits[d[i]])
IntOK(s) == LET f == IntForm(s) IN f.ok /\ DigitsLeq(f.digits, IF f.neg THEN MinInt ELSE MaxInt)
\* (the smallest integer has no negation)
IntOf(s) == LET f == IntForm(s) IN
            IF f.neg /\ f.digits = MinInt THEN (-2147483647) - 1
            ELSE LET n == NumberOf(f.digits, 1, 0) IN IF f.neg THEN -n ELSE n
=============================================================================
