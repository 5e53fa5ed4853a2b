--------------------------- MODULE MC_Vocabulary ---------------------------
EXTENDS Vocabulary, TLC, Json, FiniteSetsExt, SequencesExt
CONSTANTS MaxOps, WordLen, LineLen
VARIABLES v, h
vars == <<v, h>>
Chars == {97, 32, 40, 95}
UpTo(n) == UNION {[1..m -> Chars] : m \in 0..n}
AllWords == UpTo(WordLen) \cup {Unk}
AllFiles == UpTo(LineLen) \cup {l \o <<10>> \o m : l \in UpTo(1), m \in UpTo(2)}

Init == v = Fresh /\ h = <<>>
Do(op, w, v2) == v' = v2 /\ h' = Append(h, <<op, w>>)
Next == /\ Len(h) < MaxOps
        /\ \/ \E w \in AllWords : Do("add", w, Add(v, w))
           \/ v # <<>> /\ \E w \in AllWords : Do("setoov", w, SetOov(v, w))
           \/ \E f \in AllFiles : \E x \in Read(v, f) : Do("read", f, x)
           \/ Do("clear", <<>>, <<>>)
Spec == Init /\ [][Next]_vars
View == v

OneToOne == Numbered(v)
\* a word keeps its number
Stable == [][h'[Len(h')][1] \in {"add", "read"} => IsPrefix(v, v')]_vars
\* a vocabulary of plain words comes back from its own file, whatever is there already
ReadBack == (v # <<>> /\ \A i \in 2..Len(v) : Plain(v[i])) =>
               /\ Read(<<v[1]>>, Written(v)) = {v}
               /\ Read(v, Written(v)) = {v}
\* what was read holds plain words (but for an opening bracket that ends it)
ReadsPlain == \A f \in AllFiles : \A x \in Read(Fresh, f) :
                 /\ \A i \in 2..Len(x) : Plain(x[i]) \/ (Cuts(x[i]) = {Len(x[i])} /\ x[i][Len(x[i])] = Open)
                 /\ x \in Read(x, f)
\* blanks around a line mean nothing
Trim == \A f \in UpTo(LineLen) : Read(Fresh, <<32>> \o f \o <<32, 13>>) = Read(Fresh, f)
Statics == h = <<>> => ReadsPlain /\ Trim
Emit == PrintT("CASE|" \o ToJson([h |-> h]))
=============================================================================
