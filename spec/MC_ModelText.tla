---------------------------- MODULE MC_ModelText ----------------------------
(* Well-formed files and everything that one edit makes of them: read line *)
(* by line.                                                                 *)
EXTENDS ModelText, Json
CONSTANTS Bases, Edits, Letters
Str == [d |-> Data, e |-> End]
Cnt(k, n) == Ngram \o DigitsOf(k) \o <<61>> \o DigitsOf(n)
\* -1 a -0.5
L1 == <<45, 49, 32, 97, 32, 45, 48, 46, 53>>
\* -2.25 b
L2 == <<45, 50, 46, 50, 53, 32, 98>>
\* -0.5 a b
L3 == <<45, 48, 46, 53, 32, 97, 32, 98>>
\* -1.5 b a 0.25
L3b == <<45, 49, 46, 53, 9, 98, 32, 97, 9, 48, 46, 50, 53>>
\* -0.125 b a b
L4 == <<45, 48, 46, 49, 50, 53, 32, 98, 32, 97, 32, 98>>
LUnk == <<45, 57, 32>> \o Unk
File(b) ==
    CASE b = "one" -> <<Data, Cnt(1, 1), <<>>, Section(1), L2, <<>>, End>>
      [] b = "unk" -> <<Data, Cnt(1, 2), <<>>, Section(1), LUnk, L1, <<>>, End>>
      [] b = "two" -> <<Data, Cnt(1, 2), Cnt(2, 1), <<>>, Section(1), L1, L2, <<>>, Section(2), L3, <<>>, End>>
      [] b = "three" -> <<Data, Cnt(1, 2), Cnt(2, 2), Cnt(3, 1), <<>>, Section(1), L1, L2, <<>>,
                          Section(2), L3, L3b, <<>>, Section(3), L4, <<>>, End>>
      [] b = "none" -> <<Data, Cnt(1, 2), Cnt(2, 0), <<>>, Section(1), L1, L2, <<>>, Section(2), <<>>, End>>
      [] b = "tight" -> <<<<120>>, CHOOSE i \in Inter : Len(i) = 5, Data, Cnt(1, 2), Cnt(2, 1), Section(1), L2, L1, Section(2), L3, End>>
Chars(ls) == FlattenSeq([i \in DOMAIN ls |-> Append(ls[i], NL)])

VARIABLES base, edit, text, lns, pos, st
vars == <<base, edit, text, lns, pos, st>>
Cut(t, i) == SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))
Put(t, i, x) == SubSeq(t, 1, i - 1) \o x \o SubSeq(t, i, Len(t))
Init == /\ base \in Bases
        /\ edit = <<"none", 0, 0>> /\ text = Chars(File(base))
        /\ lns = <<>> /\ pos = -1 /\ st = Start
Ready(kind, i, j, t) == /\ edit' = <<kind, i, j>> /\ text' = t /\ lns' = Lines(t) /\ pos' = 0 /\ UNCHANGED <<base, st>>
Edit ==
    /\ pos = -1
    /\ LET t == text
           F == File(base)
       IN \/ Ready("none", 0, 0, t)
          \/ "prefix" \in Edits /\ \E i \in 0..(Len(t) - 1) : Ready("prefix", i, 0, SubSeq(t, 1, i))
          \/ "char" \in Edits /\ \E i \in DOMAIN t :
                \/ Ready("delete", i, 0, Cut(t, i))
                \/ \E c \in Letters : c # t[i] /\ Ready("replace", i, c, Put(Cut(t, i), i, <<c>>))
                \/ \E c \in Letters : Ready("insert", i, c, Put(t, i, <<c>>))
          \/ "line" \in Edits /\ \E i \in DOMAIN F :
                \/ Ready("without", i, 0, Chars(Cut(F, i)))
                \/ \E j \in DOMAIN F : Ready("again", i, j, Chars(Put(F, j, <<F[i]>>)))
                \/ \E j \in DOMAIN F : i < j /\ Ready("swap", i, j, Chars([F EXCEPT ![i] = F[j], ![j] = F[i]]))
          \/ "count" \in Edits /\ \E i \in DOMAIN F, n \in 0..4 :
                /\ Len(F[i]) = 9 /\ F[i][8] = 61 /\ F[i][9] # 48 + n
                /\ Ready("recount", i, n, Chars([F EXCEPT ![i] = SubSeq(@, 1, 8) \o DigitsOf(n)]))
          \/ "field" \in Edits /\ \E i \in DOMAIN F : \E k \in DOMAIN Fields(F[i]) :
                LET f == Fields(F[i])
                    Join(x) == FlattenSeq([m \in DOMAIN x |-> IF m = 1 THEN x[m] ELSE <<32>> \o x[m]]) IN
                \/ Ready("drop", i, k, Chars([F EXCEPT ![i] = Join(Cut(f, k))]))
                \/ Ready("twice", i, k, Chars([F EXCEPT ![i] = Join(Put(f, k, <<f[k]>>))]))
                \/ Ready("junk", i, k, Chars([F EXCEPT ![i] = Join(Put(Cut(f, k), k, << <<120>> >>))]))
Line == /\ pos >= 0 /\ pos < Len(lns)
        /\ st' = ReadLine(st, lns[pos + 1])
        /\ pos' = pos + 1 /\ UNCHANGED <<base, edit, text, lns>>
Finish == /\ pos = Len(lns)
          /\ st' = AtEnd(st) /\ pos' = pos + 1 /\ UNCHANGED <<base, edit, text, lns>>
Next == Edit \/ Line \/ Finish
Spec == Init /\ [][Next]_vars

Done == pos = Len(lns) + 1
V(k) == Verdict(k, st, HeadOf(text).v)
\* the machine accepts the language given without a machine
SameLanguage == Done /\ ~st.free /\ ~st.open => (~st.bad <=> WellFormed(text))
Folded == Done => st = Read(text)
\* what a well-formed file holds
AsListed == Done /\ ~st.open /\ ~st.bad =>
              /\ st.left = 0
              /\ \A k \in DOMAIN st.counts : st.counts[k] = Cardinality({i \in DOMAIN st.grams : Len(st.grams[i].w) = k})
Whole == Done /\ edit[1] = "none" => V("tree") = "accept" /\ V("hash") = "accept" /\ V("mix") = "accept"
\* all of the file is needed, but the last newline
Truncated == Done /\ edit[1] = "prefix" /\ edit[2] < Len(Chars(File(base))) - 1 => V("tree") = "refuse" /\ V("hash") = "refuse"
Counted == Done /\ edit[1] = "recount" => \A k \in {"tree", "hash", "mix"} : V(k) = "refuse"
Missing == Done /\ edit[1] = "without" /\ File(base)[edit[2]] # <<>> /\ st.counts # <<>> /\ ~st.inter /\ File(base)[edit[2]] \notin Inter \cup {<<120>>}
              => V("tree") = "refuse" /\ V("hash") = "refuse"
Doubled == Done /\ edit[1] = "again" /\ File(base)[edit[2]] # <<>> /\ st.ph # "seek" /\ ~st.open /\ ~st.free /\ edit[3] > 3 => V("tree") = "refuse"
\* fields and lines that fit their place leave a model, and all of its lines
Unparsable == Done /\ edit[1] \in {"drop", "junk"} /\ V("hash") = "accept"
                => \/ File(base)[edit[2]] \in Inter \cup {<<120>>}
                   \/ edit[3] > 1
NeverBack == [][st.bad => st'.bad]_vars
Emit == ~Done \/ PrintT("CASE|" \o ToJson([edit |-> edit, base |-> base, text |-> text,
                                           v |-> [k \in {"tree", "hash", "mix", "join", "head"} |-> V(k)],
                                           counts |-> HeadOf(text).counts,
                                           grams |-> IF st.loose \/ st.inter \/ V("tree") # "accept" THEN <<>> ELSE st.grams]))
=============================================================================
