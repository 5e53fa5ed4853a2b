------------------------------ MODULE SparseMatrix ------------------------------
(* The implementation: numbered slots filled from 0, a hash table of chains  *)
(* sorted by key and linked both ways through slot numbers, removal by       *)
(* moving the last slot into the gap, a capacity that doubles and halves.    *)
(*   prv[i] >= 0 : slot i is the first of the chain of that bucket           *)
(*   prv[i] < 0  : slot -prv[i]-1 precedes it                                *)
EXTENDS SparseMap
CONSTANTS Buckets, Shrinks
Bucket(k) == k % Buckets
Upd(f, i, v) == [x \in DOMAIN f \cup {i} |-> IF x = i THEN v ELSE f[x]]
Cut(f, n) == [x \in 0..(n-1) |-> f[x]]
Empty(hint) == [n |-> 0, cap |-> IF hint > 0 THEN hint ELSE 1, hash |-> [b \in 0..(Buckets-1) |-> -1],
                key |-> <<>>, val |-> <<>>, nxt |-> <<>>, prv |-> <<>>]
\* -------- NewEntry: the next slot, contents still undefined
Grown(s) == [s EXCEPT !.n = s.n + 1,
                      !.cap = IF s.n >= s.cap THEN 2 * s.cap
                              ELSE IF Shrinks /\ s.n < s.cap \div 3 /\ s.n > Buckets THEN s.cap \div 2 ELSE s.cap]
\* -------- RemoveEntryIdx: unlink the slot, then move the last one into it
Unlinked(s, i) ==
  LET a == IF s.prv[i] >= 0 THEN [s EXCEPT !.hash[s.prv[i]] = s.nxt[i]]
           ELSE [s EXCEPT !.nxt = Upd(@, -s.prv[i] - 1, s.nxt[i])]
  IN IF a.nxt[i] >= 0 THEN [a EXCEPT !.prv = Upd(@, a.nxt[i], a.prv[i])] ELSE a
Dropped(s0, i) ==
  LET u == Unlinked(s0, i)
      s == [u EXCEPT !.n = @ - 1]
      l == s.n
      a == IF s.prv[l] >= 0 THEN [s EXCEPT !.hash[s.prv[l]] = i]
           ELSE [s EXCEPT !.nxt = Upd(@, -s.prv[l] - 1, i)]
      b == IF a.nxt[l] >= 0 THEN [a EXCEPT !.prv = Upd(@, a.nxt[l], -i - 1)] ELSE a
      c == IF i = l THEN s
           ELSE [b EXCEPT !.nxt = Upd(@, i, b.nxt[l]), !.prv = Upd(@, i, b.prv[l]),
                          !.key = Upd(@, i, b.key[l]), !.val = Upd(@, i, b.val[l])]
  IN [c EXCEPT !.key = Cut(@, c.n), !.val = Cut(@, c.n), !.nxt = Cut(@, c.n), !.prv = Cut(@, c.n)]
\* -------- FindEntry
RECURSIVE Walk(_, _, _)
Walk(s, i, k) == IF s.nxt[i] >= 0 /\ s.key[s.nxt[i]] <= k THEN Walk(s, s.nxt[i], k) ELSE i
\* the slot of k, or -1
Slot(s, k) == LET h == s.hash[Bucket(k)]
              IN IF h < 0 \/ s.key[h] > k THEN -1
                 ELSE LET i == Walk(s, h, k) IN IF s.key[i] = k THEN i ELSE -1
Fill(s, i, k, def, nx, pv) ==
  [s EXCEPT !.key = Upd(@, i, k), !.val = Upd(@, i, def), !.nxt = Upd(@, i, nx), !.prv = Upd(@, i, pv)]
\* the state with a slot for k (the default in a new one) and its number
Found(s, k, def) ==
  LET b == Bucket(k)  h == s.hash[b]  g == Grown(s)  i == s.n
  IN IF Slot(s, k) >= 0 THEN [s |-> s, i |-> Slot(s, k)]
     ELSE IF h < 0 THEN [s |-> Fill([g EXCEPT !.hash[b] = i], i, k, def, -1, b), i |-> i]
     ELSE IF s.key[h] > k
     THEN LET f == Fill([g EXCEPT !.hash[b] = i], i, k, def, h, b)
          IN [s |-> [f EXCEPT !.prv = Upd(@, h, -i - 1)], i |-> i]
     ELSE LET w == Walk(s, h, k)
              f == Fill(g, i, k, def, s.nxt[w], -w - 1)
              l == [f EXCEPT !.nxt = Upd(@, w, i)]
          IN [s |-> IF s.nxt[w] >= 0 THEN [l EXCEPT !.prv = Upd(@, s.nxt[w], -i - 1)] ELSE l, i |-> i]
\* -------- the operations
ISet(s, def, k, v) == LET f == Found(s, k, def)
                      IN IF v = def THEN Dropped(f.s, f.i) ELSE [f.s EXCEPT !.val = Upd(@, f.i, v)]
IAdd(s, def, k, v) == LET f == Found(s, k, def)  x == f.s.val[f.i] + v
                      IN IF x = def THEN Dropped(f.s, f.i) ELSE [f.s EXCEPT !.val = Upd(@, f.i, x)]
IAddKeep(s, def, k, v) == LET f == Found(s, k, def) IN [f.s EXCEPT !.val = Upd(@, f.i, @[f.i] + v)]
IGet(s, def, k) == IF Slot(s, k) < 0 THEN def ELSE s.val[Slot(s, k)]
IClear(s) == [Empty(0) EXCEPT !.cap = s.cap]
\* every slot from 0; after a removal the same slot number is looked at again
RECURSIVE ISweep(_, _, _)
ISweep(s, i, gone) == IF i >= s.n THEN s
                         ELSE IF s.val[i] \in gone THEN ISweep(Dropped(s, i), i, gone)
                         ELSE ISweep(s, i + 1, gone)
\* the sweep that moves on after a removal (what the code once did)
RECURSIVE IHasty(_, _, _)
IHasty(s, i, gone) == IF i >= s.n THEN s
                         ELSE IHasty(IF s.val[i] \in gone THEN Dropped(s, i) ELSE s, i + 1, gone)
\* -------- what the implementation stands for, and its own consistency
Abs(s, keys) == [k \in keys |-> IF \E i \in 0..(s.n-1) : s.key[i] = k THEN s.val[CHOOSE i \in 0..(s.n-1) : s.key[i] = k] ELSE None]
RECURSIVE Chain(_, _, _)
Chain(s, i, fuel) == IF i < 0 \/ fuel = 0 THEN <<>> ELSE <<i>> \o Chain(s, s.nxt[i], fuel - 1)
Consistent(s) ==
  /\ s.n <= s.cap
  /\ \A i \in 0..(s.n-1) : /\ s.nxt[i] < s.n
                           /\ s.nxt[i] >= 0 => s.prv[s.nxt[i]] = -i - 1
                           /\ IF s.prv[i] >= 0 THEN s.hash[s.prv[i]] = i ELSE s.nxt[-s.prv[i] - 1] = i
  /\ \A i, j \in 0..(s.n-1) : s.key[i] = s.key[j] => i = j
  /\ \A b \in 0..(Buckets-1) :
       LET c == Chain(s, s.hash[b], s.n + 1)
       IN /\ {c[i] : i \in DOMAIN c} = {i \in 0..(s.n-1) : Bucket(s.key[i]) = b}
          /\ Len(c) = Cardinality({i \in 0..(s.n-1) : Bucket(s.key[i]) = b})
          /\ \A i \in 1..(Len(c)-1) : s.key[c[i]] < s.key[c[i+1]]
=============================================================================
