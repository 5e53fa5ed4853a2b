---------------------------- MODULE Trace_SparseMap ----------------------------
(* Validation of recorded operation sequences of the sparse matrix.         *)
EXTENDS SparseMap, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, pos, m, bad
vars == <<k, pos, m, bad>>
C == Cases[k]
Init == k \in DOMAIN Cases /\ pos = 0 /\ m = [i \in DOMAIN C.keys |-> None] /\ bad = ""
\* keys are numbered in C.keys; little-endian bytes, as memcmp sees them
Byte(n, i) == (n \div (CASE i = 0 -> 1 [] i = 1 -> 256 [] i = 2 -> 65536 [] OTHER -> 16777216)) % 256
KeyByte(key, i) == Byte(key[((i - 1) \div C.width) + 1], (i - 1) % C.width)
Before(x, y) == \E i \in 1..(Len(x) * C.width) : /\ KeyByte(x, i) < KeyByte(y, i)
                                                 /\ \A j \in 1..(i-1) : KeyByte(x, j) = KeyByte(y, j)
Count(s) == Cardinality(Listed(s))
OnceEach(l, s) == /\ \A i \in DOMAIN l : s[l[i][1]] = l[i][2] /\ Has(s, l[i][1])
                  /\ Cardinality({l[i][1] : i \in DOMAIN l}) = Len(l)
Visits(l, s) == Len(l) = Count(s) /\ OnceEach(l, s)
Sorted(l) == \A i \in 1..(Len(l)-1) : Before(C.keys[l[i][1]], C.keys[l[i+1][1]])
Def == C.def
\* each operation: the map after it and whether the answer is right
After(o) ==
  CASE o.op \in {"set", "setp"} -> SetTo(m, Def, o.k, o.v)
    [] o.op \in {"inc", "incp"} -> Add(m, Def, o.k, o.v)
    [] o.op = "incwo" -> AddKeep(m, Def, o.k, o.v)
    [] o.op = "del" -> Removed(m, o.k)
    [] o.op = "clear" -> Nothing(DOMAIN m)
    [] o.op = "rmdef" -> NoDefaults(m, Def)
    [] o.op = "delstep" -> NoneUpTo(m, o.v)
    [] o.op = "setstep" -> AllPlus(m, o.v)
    [] OTHER -> m
Right(o, n) ==
  CASE o.op \in {"get", "getp"} -> o.out = Stored(m, Def, o.k)
    [] o.op \in {"inc", "incp", "incwo"} -> o.out = Stored(n, Def, o.k)
    [] o.op = "has" -> (o.out = 1) = Has(m, o.k)
    [] o.op = "n" -> o.out = Count(m)
    [] o.op \in {"step", "stept", "delstep", "setstep"} -> Visits(o.list, m)
    [] o.op = "part" -> Len(o.list) = (IF o.v < Count(m) THEN o.v ELSE Count(m)) /\ OnceEach(o.list, m)
    [] o.op \in {"ostep", "ostept"} -> Visits(o.list, m) /\ Sorted(o.list)
    [] OTHER -> TRUE
Step == /\ pos >= 0 /\ pos < Len(C.ops) /\ bad = ""
        /\ LET o == C.ops[pos + 1]
               n == TLCEval(After(o))
           IN /\ m' = n
              /\ bad' = IF Right(o, n) THEN "" ELSE "operation " \o ToString(pos + 1) \o ": " \o ToString(o)
        /\ pos' = pos + 1 /\ UNCHANGED k
Verdict == /\ bad # "" \/ pos = Len(C.ops)
           /\ pos >= 0
           /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o (IF bad = "" THEN "ok" ELSE bad))
           /\ pos' = -1 /\ UNCHANGED <<k, m, bad>>
Next == Step \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
