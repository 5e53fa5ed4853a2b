----------------------------- MODULE MC_ModelBin -----------------------------
(* Binary files of small models and everything one edit makes of them.      *)
EXTENDS ModelBin, Json
CONSTANTS Bases, Edits, Letters
Txt(s) == CASE s = "a" -> <<97>> [] s = "b" -> <<98>> [] s = "u" -> Unk
Le(n) == IF n = -1 THEN <<255, 255, 255, 255>> ELSE IF n = -2 THEN <<254, 255, 255, 255>>
         ELSE IF n = 1000000 THEN <<64, 66, 15, 0>> ELSE <<n, 0, 0, 0>>
One == <<0, 0, 128, 191>>     \* -1
Half == <<0, 0, 0, 191>>      \* -0.5
Zero == <<0, 0, 0, 0>>
\* [order, type, counts, nodes: word and child]
Model(b) ==
    CASE b = "uni" -> [type |-> Backoff, counts |-> <<2>>, sent |-> FALSE, n |-> <<<<0, -1>>, <<1, -1>>>>]
      [] b = "two" -> [type |-> Backoff, counts |-> <<3, 2>>, sent |-> FALSE,
                       n |-> <<<<0, -1>>, <<1, 3>>, <<2, 4>>, <<2, 5>>, <<1, -1>>>>]
      [] b = "sent" -> [type |-> Interpolated, counts |-> <<3, 1>>, sent |-> TRUE,
                        n |-> <<<<0, -1>>, <<1, -1>>, <<2, 3>>, <<1, 4>>>>]
      [] b = "three" -> [type |-> Backoff, counts |-> <<3, 3, 1>>, sent |-> FALSE,
                         n |-> <<<<0, -1>>, <<1, 3>>, <<2, 5>>, <<1, 6>>, <<2, 6>>, <<1, 7>>, <<1, -1>>>>]
Join(ls) == FlattenSeq(ls)
Size(o, n) == DigitsOf(o) \o <<32>> \o DigitsOf(n) \o <<NL>>
Head1(m, o, nn, c) ==
    Magic \o m.type \o <<NL>> \o DigitsOf(m.counts[1]) \o <<NL>>
    \o Join([i \in 1..m.counts[1] |-> (IF i = 1 THEN Unk ELSE <<95 + i>>) \o <<NL>>])
    \o Size(o, nn) \o Join([i \in DOMAIN c |-> DigitsOf(c[i]) \o <<NL>>])
Node(n) == Le(n[1]) \o One \o Half \o Le(n[2])
Body(m) == Join([i \in DOMAIN m.n |-> Node(m.n[i])]) \o (IF m.sent THEN Le(-1) \o Zero \o Zero \o Le(-1) ELSE <<>>)
NN(m) == Len(m.n) + (IF m.sent THEN 1 ELSE 0)
Whole(b) == LET m == Model(b) IN Head1(m, Len(m.counts), NN(m), m.counts) \o Body(m)
HeadLen(b) == LET m == Model(b) IN Len(Head1(m, Len(m.counts), NN(m), m.counts))

VARIABLES base, edit, text, st
vars == <<base, edit, text, st>>
Cut(t, i) == SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))
Put(t, i, x) == SubSeq(t, 1, i - 1) \o x \o SubSeq(t, i, Len(t))
Init == base \in Bases /\ edit = <<"", 0, 0>> /\ text = Whole(base) /\ st = BStart
Ready(kind, i, j, t) == edit' = <<kind, i, j>> /\ text' = t /\ UNCHANGED <<base, st>>
Edit ==
    /\ edit[1] = ""
    /\ LET t == text
           m == Model(base)
       IN \/ Ready("none", 0, 0, t)
          \/ "prefix" \in Edits /\ \E i \in 0..(Len(t) - 1) : Ready("prefix", i, 0, SubSeq(t, 1, i))
          \/ "char" \in Edits /\ \E i \in 1..HeadLen(base) :
                \/ Ready("delete", i, 0, Cut(t, i))
                \/ \E c \in Letters : c # t[i] /\ Ready("replace", i, c, Put(Cut(t, i), i, <<c>>))
                \/ \E c \in Letters : Ready("insert", i, c, Put(t, i, <<c>>))
          \/ "node" \in Edits /\ \E i \in DOMAIN m.n, x \in {-2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 1000000} :
                \/ x # m.n[i][1] /\ Ready("word", i, x, Head1(m, Len(m.counts), NN(m), m.counts) \o Body([m EXCEPT !.n[i][1] = x]))
                \/ x # m.n[i][2] /\ Ready("child", i, x, Head1(m, Len(m.counts), NN(m), m.counts) \o Body([m EXCEPT !.n[i][2] = x]))
          \/ "count" \in Edits /\ \E i \in 0..(Len(m.counts) + 1), x \in 0..9 :
                \/ i \in DOMAIN m.counts /\ x # m.counts[i] /\ Ready("count", i, x, Head1(m, Len(m.counts), NN(m), [m.counts EXCEPT ![i] = x]) \o Body(m))
                \/ i = 0 /\ x # Len(m.counts) /\ Ready("order", i, x, Head1(m, x, NN(m), m.counts) \o Body(m))
                \/ i = Len(m.counts) + 1 /\ x # NN(m) /\ Ready("nodes", i, x, Head1(m, Len(m.counts), x, m.counts) \o Body(m))
                \/ i \in DOMAIN m.counts /\ i < Len(m.counts) /\ x <= 3 /\ x # 0 /\ m.counts[i + 1] > x
                     /\ Ready("shift", i, x, Head1(m, Len(m.counts), NN(m), [m.counts EXCEPT ![i] = @ + x, ![i + 1] = @ - x]) \o Body(m))
Line == /\ edit[1] # "" /\ ~st.bad /\ ~st.open /\ st.ph # "nodes"
        /\ st' = HeadLine(text, st) /\ UNCHANGED <<base, edit, text>>
Next == Edit \/ Line
Spec == Init /\ [][Next]_vars
Done == edit[1] # "" /\ (st.bad \/ st.open \/ st.ph = "nodes")
V == BinVerdict(text)

Taken == Done /\ edit[1] = "none" => V = "accept"
Truncated == Done /\ edit[1] = "prefix" => V = "refuse"
\* another number of n-grams in the head
Counted == Done /\ edit[1] \in {"count", "order", "nodes", "shift"} =>
              \/ V = "refuse"
              \/ edit[1] = "count" /\ edit[3] = 0
              \* one node more than n-grams: that is a sentinel
              \/ edit[1] = "nodes" /\ edit[3] = Len(Model(base).n)
              \/ V = "free"
\* all nodes of an accepted tree stand for n-grams with words of the vocabulary
InVocabulary == Done /\ V = "accept" /\ edit[1] \in {"none", "word"} =>
    LET s == HeadLines(text, BStart)
        N == [i \in 1..s.nodes |-> NodeAt(text, s.at, i - 1)]
        G == TreeGrams(N, s.words)
    IN /\ \A g \in G : Len(g) <= s.order /\ \A i \in DOMAIN g : g[i] \in 0..(s.words - 1)
       /\ edit[1] = "none" => \A k \in 1..s.order : Cardinality({g \in G : Len(g) = k}) = s.counts[k]
Emit == ~Done \/ PrintT("CASE|" \o ToJson([edit |-> edit, base |-> base, text |-> text, v |-> [k \in {"bin"} |-> V], counts |-> <<>>, grams |-> <<>>]))
=============================================================================
