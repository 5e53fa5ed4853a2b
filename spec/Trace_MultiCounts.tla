--------------------------- MODULE Trace_MultiCounts ---------------------------
(* Validation of recorded operation sequences of the count store.            *)
(* Case: width of the value tuples, order of each n-gram (gorder) and of each *)
(* context (corder), top order, operations.                                  *)
EXTENDS MultiCounts, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, pos, s, bad
vars == <<k, pos, s, bad>>
C == Cases[k]
W == C.width
L0 == [c |-> [i \in DOMAIN C.gorder |-> None], b |-> [i \in DOMAIN C.corder |-> Absent], u |-> Zero(W)]
Init == k \in DOMAIN Cases /\ pos = 0 /\ bad = "" /\ s = Layers(L0, L0, FALSE)
At(i, v) == [j \in 1..W |-> IF j = i THEN v ELSE 0]
NoNz(v) == [j \in 1..W |-> IF j = 1 \/ j = W THEN v[j] ELSE 0]
NoZeros(b) == [c \in DOMAIN b |-> IF BHas(b, c) /\ IsZero(b[c]) THEN Absent ELSE b[c]]
ClearNz(l, o) == IF o = 1 THEN [l EXCEPT !.u = NoNz(@)]
                 ELSE [l EXCEPT !.b = [c \in DOMAIN l.b |-> IF C.corder[c] = o /\ BHas(l.b, c) THEN NoNz(l.b[c]) ELSE l.b[c]]]
Derived(l) == [c |-> [g \in DOMAIN l.c |-> IF C.gorder[g] = C.top THEN l.c[g] ELSE None],
               b |-> [c \in DOMAIN l.b |-> Absent], u |-> Zero(W)]
After(o) ==
  CASE o.op = "cnt" -> Both(s, LAMBDA l : Count(l, o.k, o.v))
    [] o.op = "setc" -> Both(s, LAMBDA l : SetCount(l, o.k, o.v))
    [] o.op = "ccnt" -> Try(s, LAMBDA l : Count(l, o.k, o.v))
    [] o.op = "bo" -> Both(s, LAMBDA l : Backoff(l, o.k, o.b))
    [] o.op = "setb" -> Both(s, LAMBDA l : SetBackoff(l, o.k, o.b))
    [] o.op = "cbo" -> Try(s, LAMBDA l : TryBackoff(l, o.k, o.b))
    [] o.op = "den" -> Both(s, LAMBDA l : Backoff(l, o.k, At(1, o.v)))
    [] o.op = "cden" -> Try(s, LAMBDA l : TryBackoff(l, o.k, At(1, o.v)))
    [] o.op = "nz" -> Both(s, LAMBDA l : Backoff(l, o.k, At(2 + o.pos, o.v)))
    [] o.op = "cnz" -> Try(s, LAMBDA l : TryBackoff(l, o.k, At(2 + o.pos, o.v)))
    [] o.op = "reset" -> Keep(s)
    [] o.op = "undo" -> Undo(s)
    [] o.op = "rmdefbo" -> Both(s, LAMBDA l : [l EXCEPT !.b = NoZeros(@)])
    [] o.op = "clearnz" -> Both(s, LAMBDA l : ClearNz(l, o.k))
    [] o.op = "clearder" -> Both(s, LAMBDA l : Derived(l))
    [] OTHER -> s
Ids(l) == {l[i][1] : i \in DOMAIN l}
Right(o, n) ==
  CASE o.op \in {"cnt", "ccnt"} -> o.out = n.cur.c[o.k]
    [] o.op = "getc" -> o.out = Stored(s.cur.c, 0, o.k)
    [] o.op = "getb" -> o.b = BackoffOf(s.cur, o.k)
    [] o.op = "getden" -> o.out = BackoffOf(s.cur, o.k)[1]
    [] o.op \in {"counts", "ocounts"} -> /\ Ids(o.list) = Listed(s.cur.c) /\ Cardinality(Ids(o.list)) = Len(o.list)
                                         /\ \A i \in DOMAIN o.list : s.cur.c[o.list[i][1]] = o.list[i][2]
    [] o.op = "next" -> Ids(o.list) = Listed(s.cur.c) /\ Cardinality(Ids(o.list)) = Len(o.list)
    [] o.op = "backoffs" -> /\ Ids(o.list) = {c \in DOMAIN s.cur.b : BHas(s.cur.b, c)}
                            /\ Cardinality(Ids(o.list)) = Len(o.list)
                            /\ \A i \in DOMAIN o.list : s.cur.b[o.list[i][1]] = o.list[i][2]
    [] OTHER -> TRUE
\* the recorded run stays within what is promised
Legal(o) ==
  CASE o.op \in {"cnt"} -> MayCount(s, o.k)
    [] o.op \in {"setc", "setb", "rmdefbo", "clearnz", "clearder"} -> ~s.open
    [] o.op \in {"ccnt", "cbo", "cden", "cnz", "undo"} -> s.open
    [] o.op = "bo" -> MayBackoff(s, o.k, o.b)
    [] o.op = "den" -> MayBackoff(s, o.k, At(1, o.v))
    [] o.op = "nz" -> MayBackoff(s, o.k, At(2 + o.pos, o.v))
    [] OTHER -> TRUE
Step == /\ pos >= 0 /\ pos < Len(C.ops) /\ bad = ""
        /\ LET o == C.ops[pos + 1]
           IN IF Legal(o) THEN LET n == TLCEval(After(o))
                               IN s' = n /\ bad' = IF Right(o, n) THEN "" ELSE "operation " \o ToString(pos + 1) \o ": " \o ToString(o)
              ELSE s' = s /\ bad' = "not a legal sequence at " \o ToString(pos + 1)
        /\ pos' = pos + 1 /\ UNCHANGED k
Verdict == /\ pos >= 0 /\ (bad # "" \/ pos = Len(C.ops))
           /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o (IF bad = "" THEN "ok" ELSE bad))
           /\ pos' = -1 /\ UNCHANGED <<k, s, bad>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
