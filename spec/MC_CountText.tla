---------------------------- MODULE MC_CountText ----------------------------
(* Count files of small trainings and everything one edit makes of them,   *)
(* read line by line.                                                       *)
EXTENDS CountText, Json
CONSTANTS Bases, Edits, Letters
Words == 3
Text(n) == DigitsOf(n)
Join(x) == FlattenSeq([m \in DOMAIN x |-> IF m = 1 THEN x[m] ELSE <<32>> \o x[m]])
G(g, v) == Join(<<Open0>> \o [i \in DOMAIN g |-> Text(g[i])] \o <<Close0>> \o [i \in DOMAIN v |-> Text(v[i])])
Hd == Head0 \o <<32>> \o Text(64000)
C1 == <<SectionLine(1, FALSE), G(<<1>>, <<2>>), G(<<2>>, <<1>>), <<>>>>
B1 == <<SectionLine(1, TRUE), G(<<>>, <<2, 3, 0>>), <<>>>>
C2 == <<SectionLine(2, FALSE), G(<<1, 2>>, <<1>>), G(<<2, 1>>, <<12>>), <<>>>>
B2 == <<SectionLine(2, TRUE), G(<<1>>, <<1, 1, 0>>), G(<<2>>, <<1, 12, 0>>), <<>>>>
B1x == <<SectionLine(1, TRUE), G(<<>>, <<1, 1, 0, 3, 0>>), <<>>>>
B2x == <<SectionLine(2, TRUE), G(<<1>>, <<1, 0, 0, 1, 0>>), G(<<2>>, <<0, 0, 1, 12, 0>>), <<>>>>
C3 == <<SectionLine(3, FALSE), G(<<1, 2, 1>>, <<1>>), <<>>>>
B3 == <<SectionLine(3, TRUE), G(<<1, 2>>, <<1, 1, 0>>)>>
H2 == <<Join(<<Text(1), Text(2), Text(12)>>), Join(<<Text(2), Text(1), Text(3)>>), <<>>, Join(<<Text(0), Text(0), Text(1)>>)>>
File(b) == CASE b = "one" -> <<Hd>> \o C1 \o B1
             [] b = "two" -> <<Hd>> \o C1 \o B1 \o C2 \o B2
             [] b = "two3" -> <<Hd>> \o C1 \o B1x \o C2 \o B2x
             [] b = "three" -> <<Hd>> \o C1 \o B1 \o C2 \o B2 \o C3 \o B3
             [] b = "high" -> H2
K(b) == IF b = "two3" THEN 5 ELSE 3
Chars(ls) == FlattenSeq([i \in DOMAIN ls |-> Append(ls[i], 10)])

VARIABLES base, edit, text, lns, pos, st
vars == <<base, edit, text, lns, pos, st>>
Cut(t, i) == SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))
Put(t, i, x) == SubSeq(t, 1, i - 1) \o x \o SubSeq(t, i, Len(t))
Init == /\ base \in Bases
        /\ edit = <<"none", 0, 0>> /\ text = Chars(File(base))
        /\ lns = <<>> /\ pos = -1 /\ st = Start
Ready(kind, i, j, t) == /\ edit' = <<kind, i, j>> /\ text' = t /\ lns' = Lines(t) /\ pos' = 0 /\ UNCHANGED <<base, st>>
Edit ==
    /\ pos = -1
    /\ LET t == text
           F == File(base)
       IN \/ Ready("none", 0, 0, t)
          \/ "prefix" \in Edits /\ \E i \in 0..(Len(t) - 1) : Ready("prefix", i, 0, SubSeq(t, 1, i))
          \/ "char" \in Edits /\ \E i \in DOMAIN t :
                \/ Ready("delete", i, 0, Cut(t, i))
                \/ \E c \in Letters : c # t[i] /\ Ready("replace", i, c, Put(Cut(t, i), i, <<c>>))
                \/ \E c \in Letters : Ready("insert", i, c, Put(t, i, <<c>>))
          \/ "line" \in Edits /\ \E i \in DOMAIN F :
                \/ Ready("without", i, 0, Chars(Cut(F, i)))
                \/ \E j \in DOMAIN F : Ready("again", i, j, Chars(Put(F, j, <<F[i]>>)))
                \/ \E j \in DOMAIN F : i < j /\ Ready("swap", i, j, Chars([F EXCEPT ![i] = F[j], ![j] = F[i]]))
          \/ "field" \in Edits /\ \E i \in DOMAIN F : \E k \in DOMAIN Fields(F[i]) :
                LET f == Fields(F[i]) IN
                \/ Ready("drop", i, k, Chars([F EXCEPT ![i] = Join(Cut(f, k))]))
                \/ Ready("twice", i, k, Chars([F EXCEPT ![i] = Join(Put(f, k, <<f[k]>>))]))
                \/ Ready("junk", i, k, Chars([F EXCEPT ![i] = Join(Put(Cut(f, k), k, << <<120>> >>))]))
                \/ \E n \in {0, 3, 99} : Ready("value", i, k * 100 + n, Chars([F EXCEPT ![i] = Join(Put(Cut(f, k), k, <<Text(n)>>))]))
                \/ Ready("minus", i, k, Chars([F EXCEPT ![i] = Join(Put(Cut(f, k), k, << <<45>> \o f[k] >>))]))
                \/ Ready("huge", i, k, Chars([F EXCEPT ![i] = Join(Put(Cut(f, k), k, << [x \in 1..11 |-> 52] >>))]))
Line == /\ pos >= 0 /\ pos < Len(lns)
        /\ st' = IF base = "high" THEN HLine(st, lns[pos + 1], 2, Words) ELSE ReadLine(st, lns[pos + 1], K(base), Words)
        /\ pos' = pos + 1 /\ UNCHANGED <<base, edit, text, lns>>
Finish == /\ pos = Len(lns)
          /\ st' = IF base = "high" THEN st ELSE AtEnd(st)
          /\ pos' = pos + 1 /\ UNCHANGED <<base, edit, text, lns>>
Next == Edit \/ Line \/ Finish
Spec == Init /\ [][Next]_vars

Done == pos = Len(lns) + 1
V == IF base = "high" THEN HVerdict(st) ELSE Verdict(st)
\* the machine takes the language given without a machine
SameLanguage == Done /\ ~st.open /\ base # "high" => (~st.bad <=> WellFormed(text, K(base), Words))
Folded == Done => st = (IF base = "high" THEN HRead(text, 2, Words) ELSE Read(text, K(base), Words))
Intact == Done /\ edit[1] = "none" => V = "accept"
\* a file cut short is refused but where an order ends
EndsOf(b) == {Len(Chars(SubSeq(File(b), 1, i))) : i \in {i \in DOMAIN File(b) :
                /\ File(b)[i] # <<>> /\ (i = Len(File(b)) \/ File(b)[i + 1] = <<>>)
                /\ \E j \in 1..i : File(b)[j] \in {SectionLine(o, TRUE) : o \in 1..3} /\ \A m \in (j + 1)..i : File(b)[m] # <<>>}}
Near(i, S) == \E e \in S : i \in (e - 1)..(e + 1)
Truncated == Done /\ edit[1] = "prefix" /\ base # "high" /\ ~Near(edit[2], EndsOf(base)) => V = "refuse"
\* what a line says it must say
Mangled == Done /\ edit[1] \in {"drop", "junk", "minus", "huge"} /\ File(base)[edit[2]] # Hd
             => V = "refuse" \/ (edit[1] = "minus" /\ V = "free")
Missing == Done /\ edit[1] = "without" /\ base # "high" /\ File(base)[edit[2]] # <<>>
             => \/ V # "accept"
                \/ \E o \in 1..3 : \E i \in 1..edit[2] : i < edit[2] /\ File(base)[i] = SectionLine(o, FALSE)
NeverBack == [][st.bad => st'.bad]_vars
Table(f) == SetToSortSeq({<<g, f[g]>> : g \in DOMAIN f}, LAMBDA a, b : a[1] # b[1] /\ (Len(a[1]) < Len(b[1]) \/ (Len(a[1]) = Len(b[1]) /\
                 LET i == CHOOSE i \in DOMAIN a[1] : a[1][i] # b[1][i] /\ \A j \in 1..(i - 1) : a[1][j] = b[1][j] IN a[1][i] < b[1][i])))
Emit == ~Done \/ PrintT("CASE|" \o ToJson([base |-> base, edit |-> edit, text |-> text, v |-> V,
             cnt |-> IF V = "accept" /\ base # "high" THEN Table(Counts(st)) ELSE <<>>,
             tot |-> IF V = "accept" /\ base # "high" THEN Table(Totals(st)) ELSE <<>>]))
=============================================================================
