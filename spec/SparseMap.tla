------------------------------- MODULE SparseMap -------------------------------
(* What the sparse count matrix promises: a finite map with a default.      *)
(* A state gives every possible key its stored value, or None.  Setting or  *)
(* incrementing a key to the default removes it; incrementing without       *)
(* deletion keeps it; reading never changes anything.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == -1000000000
Nothing(keys) == [k \in keys |-> None]
Has(s, k) == s[k] # None
Listed(s) == {k \in DOMAIN s : s[k] # None}
Stored(s, def, k) == IF Has(s, k) THEN s[k] ELSE def
Put(s, k, v) == [s EXCEPT ![k] = v]
Removed(s, k) == [s EXCEPT ![k] = None]
SetTo(s, def, k, v) == Put(s, k, IF v = def THEN None ELSE v)
Add(s, def, k, v) == SetTo(s, def, k, Stored(s, def, k) + v)
AddKeep(s, def, k, v) == Put(s, k, Stored(s, def, k) + v)
NoDefaults(s, def) == [k \in DOMAIN s |-> IF s[k] = def THEN None ELSE s[k]]
NoneUpTo(s, lim) == [k \in DOMAIN s |-> IF s[k] <= lim THEN None ELSE s[k]]
AllPlus(s, v) == [k \in DOMAIN s |-> IF Has(s, k) THEN s[k] + v ELSE None]
=============================================================================
