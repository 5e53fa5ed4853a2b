----------------------------- MODULE MultiCounts -----------------------------
(* The count store of a model under training: numbered n-grams with a count *)
(* each, numbered contexts with back-off values (a tuple), one value tuple   *)
(* for the empty context; and the two layers that tentative changes make:    *)
(* what was there (base) and what there is now (cur).                        *)
EXTENDS SparseMap
\* --- tuples of back-off values
VAdd(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Zero(n) == [i \in 1..n |-> 0]
IsZero(a) == \A i \in DOMAIN a : a[i] = 0
Absent == <<>>
BHas(b, c) == b[c] # Absent
BGet(b, c, n) == IF BHas(b, c) THEN b[c] ELSE Zero(n)
BPut(b, c, v) == [b EXCEPT ![c] = v]
BSet(b, c, v) == BPut(b, c, IF IsZero(v) THEN Absent ELSE v)
BAdd(b, c, v) == BSet(b, c, VAdd(BGet(b, c, Len(v)), v))
BAddKeep(b, c, v) == BPut(b, c, VAdd(BGet(b, c, Len(v)), v))
\* --- one layer: [c |-> counts, b |-> back-offs, u |-> of the empty context]
\* contexts are numbered from 1; 0 is the empty context
OnC(l, f) == [l EXCEPT !.c = f]
Count(l, g, v) == OnC(l, AddKeep(l.c, 0, g, v))
SetCount(l, g, v) == OnC(l, SetTo(l.c, 0, g, v))
Backoff(l, c, v) == IF c = 0 THEN [l EXCEPT !.u = VAdd(@, v)] ELSE [l EXCEPT !.b = BAdd(@, c, v)]
SetBackoff(l, c, v) == IF c = 0 THEN [l EXCEPT !.u = v] ELSE [l EXCEPT !.b = BSet(@, c, v)]
TryBackoff(l, c, v) == IF c = 0 THEN [l EXCEPT !.u = VAdd(@, v)] ELSE [l EXCEPT !.b = BAddKeep(@, c, v)]
BackoffOf(l, c) == IF c = 0 THEN l.u ELSE BGet(l.b, c, Len(l.u))
\* --- both layers
Layers(base, cur, open) == [base |-> base, cur |-> cur, open |-> open]
\* a direct update holds in both, a tentative one only in the current layer
Both(s, Op(_)) == Layers(Op(s.base), Op(s.cur), s.open)
Try(s, Op(_)) == Layers(s.base, Op(s.cur), s.open)
Keep(s) == Layers(s.cur, s.cur, TRUE)
Undo(s) == Layers(s.base, s.base, FALSE)
\* direct updates allowed while changes are outstanding: of entries that were
\* there before and stay
MayCount(s, g) == IF s.open THEN Has(s.base.c, g) ELSE TRUE
MayBackoff(s, c, v) == IF ~s.open \/ c = 0 THEN TRUE ELSE BHas(s.base.b, c) /\ ~IsZero(VAdd(s.cur.b[c], v)) /\ ~IsZero(VAdd(s.base.b[c], v))
=============================================================================
