----------------------------- MODULE Trace_Walk -----------------------------
(* Recorded walks over models against Walk.  A case has the n-grams of the *)
(* model file in the order of the file, and the operations of a walk with  *)
(* their answers: possible or not, and the words, values and weights along *)
(* the path to the n-gram it is at.                                        *)
EXTENDS Walk, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, i, T, L, X, NM, val, at, bad
vars == <<k, i, T, L, X, NM, val, at, bad>>
C == Cases[k]
Unk == "<UNK>"

\* words are numbered as the file lists them, the unknown word being 0
Listed == SelectSeq([j \in DOMAIN C.p |-> C.p[j][1]], LAMBDA g : Len(g) = 1 /\ g # <<Unk>>)
Names == <<Unk>> \o [j \in DOMAIN Listed |-> Listed[j][1]]
\* (NM: the names by number, as a variable)
Number(w) == LET S == {j \in DOMAIN NM : NM[j] = w} IN IF S = {} THEN 0 ELSE Min(S) - 1
Num(g) == [j \in DOMAIN g |-> Number(g[j])]
Name(g) == [j \in DOMAIN g |-> NM[g[j] + 1]]
Values == LET nm == TLCEval(Names)
                 f == TLCEval([w \in {nm[x] : x \in DOMAIN nm} |-> (CHOOSE j \in DOMAIN nm : nm[j] = w) - 1])
                 gs == TLCEval([j \in DOMAIN C.p |-> [x \in DOMAIN C.p[j][1] |-> f[C.p[j][1][x]]]])
                 v == FoldFunction(LAMBDA e, a : e @@ a, <<>>,
                                   [j \in DOMAIN gs |-> gs[j] :> <<C.p[j][2], C.p[j][3]>>])
          IN IF <<0>> \in DOMAIN v THEN v ELSE (<<0>> :> <<C.unlisted, 0>>) @@ v

Init == /\ k \in DOMAIN Cases /\ i = 0 /\ T = {} /\ L = <<>> /\ X = <<>> /\ NM = <<>> /\ val = <<>> /\ at = <<>> /\ bad = ""
Load == /\ i = 0
        /\ LET v == TLCEval(Values)
               n == [o \in 1..Max({Len(g) : g \in DOMAIN v}) |-> Cardinality({g \in DOMAIN v : Len(g) = o})]
           IN /\ val' = v /\ T' = TLCEval(DOMAIN v)
              /\ NM' = TLCEval(Names)
              /\ L' = TLCEval(InOrder(T')) /\ X' = TLCEval(Places(L'))
              /\ bad' = IF C.sizes = n THEN "" ELSE "sizes " \o ToString(C.sizes)
        /\ i' = 1 /\ UNCHANGED <<k, at>>
E == C.steps[i]
Go == /\ i \in DOMAIN C.steps /\ bad = ""
      /\ LET op == IF E[1][1] = "at" THEN <<"at", Num(E[1][2])>> ELSE E[1]
             r == CASE op[1] = "next" -> LNext(L, X, at)
                   [] op[1] = "order" -> LNextOrder(L, X, at, op[2])
                   [] OTHER -> Step(T, at, op)
             path == Name(r.at)
             want == [j \in DOMAIN r.at |-> <<path[j], val[Cut(r.at, j)][1], val[Cut(r.at, j)][2]>>]
         IN /\ bad' = IF E[2] # r.ok THEN ToString(E[1]) \o " at " \o ToString(Name(at)) \o " says " \o ToString(E[2])
                      ELSE IF E[3] # want THEN ToString(E[1]) \o " at " \o ToString(Name(at)) \o " leads to " \o ToString(E[3])
                      ELSE IF r.at # <<>> /\ E[4] # Last(want) THEN "the last node of the path is " \o ToString(E[4])
                      ELSE ""
            /\ at' = r.at
      /\ i' = i + 1 /\ UNCHANGED <<k, T, L, X, NM, val>>
Verdict == /\ i >= 1 /\ (bad # "" \/ i > Len(C.steps))
           /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o (IF bad = "" THEN "ok" ELSE bad))
           /\ i' = -1 /\ UNCHANGED <<k, T, L, X, NM, val, at, bad>>
Next == Load \/ Go \/ Verdict
Spec == Init /\ [][Next]_vars
Stays == at = <<>> \/ at \in T
=============================================================================
