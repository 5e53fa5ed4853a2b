--------------------------- MODULE MC_SparseMatrix ---------------------------
(* Every reachable matrix over a few keys: the implementation refines the   *)
(* map, step by step.  The behaviour that reached each state is kept for    *)
(* replay into the code (VIEW leaves it out of the state).                  *)
EXTENDS SparseMatrix, Json
CONSTANTS Keys, Def, Hint, MaxAbs
Vals == -1..1
VARIABLES s, m, last, hist
vars == <<s, m, last, hist>>
view == <<s, m, last>>
Init == s = Empty(Hint) /\ m = Nothing(Keys) /\ last = TRUE /\ hist = <<>>
Small(v) == v \in -MaxAbs..MaxAbs
Do(op, k, v, s1, m1, answer) ==
  /\ s' = s1 /\ m' = m1 /\ last' = answer /\ hist' = Append(hist, <<op, k, v>>)
Next ==
  \/ \E k \in Keys : \E v \in Vals :
       \/ Do("set", k, v, ISet(s, Def, k, v), SetTo(m, Def, k, v), TRUE)
       \/ /\ Small(Stored(m, Def, k) + v)
          /\ \/ LET t == IAdd(s, Def, k, v) IN Do("inc", k, v, t, Add(m, Def, k, v), TRUE)
             \/ Do("incwo", k, v, IAddKeep(s, Def, k, v), AddKeep(m, Def, k, v), TRUE)
  \/ \E k \in Keys : Do("get", k, 0, s, m, IGet(s, Def, k) = Stored(m, Def, k))
  \/ Do("rmdef", 0, 0, ISweep(s, 0, {Def}), NoDefaults(m, Def), TRUE)
  \/ \E v \in Vals : Do("delstep", 0, v, ISweep(s, 0, {x \in -9..9 : x <= v}), NoneUpTo(m, v), TRUE)
  \/ Do("clear", 0, 0, IClear(s), Nothing(Keys), TRUE)
Spec == Init /\ [][Next]_vars
Bound == s.cap <= 8
Refines == Abs(s, Keys) = m
Fit == Consistent(s)
Answers == last
Emit == PrintT("CASE|" \o ToJson(hist))
\* the hasty sweep would leave defaults behind (must be violated: see DESIGN)
HastySame == Abs(IHasty(s, 0, {Def}), Keys) = NoDefaults(m, Def)
=============================================================================
