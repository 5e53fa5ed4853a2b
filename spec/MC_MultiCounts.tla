---------------------------- MODULE MC_MultiCounts ----------------------------
(* The implementation: tables of numbered slots (removal moves the last      *)
(* slot into the gap), caches of slot numbers with the amounts added, and    *)
(* the table sizes at the last reset.  It refines the two layers of          *)
(* MultiCounts under the stated restrictions.                                *)
EXTENDS MultiCounts, Json
CONSTANTS Grams, Ctxs, MaxHist, Loose
Amounts == {-1, 1}
VARIABLES s,      \* the layers, what is promised
          t,      \* [c |-> slots of counts, b |-> slots of back-offs, u |-> value]
          cc, bc, \* caches: <<slot, amount>>, slot 0 is the empty context
          mins,   \* sizes at the last reset
          hist
vars == <<s, t, cc, bc, mins, hist>>
view == <<s, t, cc, bc, mins>>
L0 == [c |-> Nothing(Grams), b |-> [x \in Ctxs |-> Absent], u |-> <<0>>]
Init == /\ s = Layers(L0, L0, FALSE) /\ t = [c |-> <<>>, b |-> <<>>, u |-> <<0>>]
        /\ cc = <<>> /\ bc = <<>> /\ mins = [c |-> 0, b |-> 0] /\ hist = <<>>
\* --- slots
SlotOf(q, k) == IF \E i \in DOMAIN q : q[i][1] = k THEN CHOOSE i \in DOMAIN q : q[i][1] = k ELSE 0
WithSlot(q, k, z) == IF SlotOf(q, k) > 0 THEN q ELSE Append(q, <<k, z>>)
Plus(q, i, v) == [q EXCEPT ![i] = <<@[1], VAdd(@[2], v)>>]
Drop(q, i) == SubSeq([q EXCEPT ![i] = q[Len(q)]], 1, Len(q) - 1)
RECURSIVE Shrink(_, _)
Shrink(q, n) == IF Len(q) > n THEN Shrink(Drop(q, Len(q)), n) ELSE q
RECURSIVE TakeBack(_, _, _)
TakeBack(q, cache, skip) ==
  IF cache = <<>> THEN q
  ELSE LET e == cache[Len(cache)]
       IN TakeBack(IF e[1] = 0 \/ e[1] > skip THEN q ELSE Plus(q, e[1], VAdd(<<0>>, [i \in {1} |-> -e[2][1]])),
                   SubSeq(cache, 1, Len(cache) - 1), skip)
RECURSIVE Unis(_)
Unis(cache) == IF cache = <<>> THEN 0 ELSE (IF cache[1][1] = 0 THEN cache[1][2][1] ELSE 0) + Unis(Tail(cache))
Log(x) == Len(hist) < MaxHist /\ hist' = Append(hist, x)
Low(x) == x \in -1..2
\* --- operations
DirectCount(g, v) ==
  /\ (Loose \/ MayCount(s, g)) = TRUE
  /\ s' = Both(s, LAMBDA l : Count(l, g, v))
  /\ LET q == WithSlot(t.c, g, <<0>>) IN t' = [t EXCEPT !.c = Plus(q, SlotOf(q, g), <<v>>)]
  /\ Log(<<"cnt", g, v>>) /\ UNCHANGED <<cc, bc, mins>>
ForgetCount(g) ==
  /\ ~s.open /\ s' = Both(s, LAMBDA l : SetCount(l, g, 0))
  /\ t' = IF SlotOf(t.c, g) = 0 THEN t ELSE [t EXCEPT !.c = Drop(@, SlotOf(t.c, g))]
  /\ Log(<<"setc", g, 0>>) /\ UNCHANGED <<cc, bc, mins>>
TryCount(g, v) ==
  /\ s.open /\ s' = Try(s, LAMBDA l : Count(l, g, v))
  /\ LET q == WithSlot(t.c, g, <<0>>)
     IN /\ t' = [t EXCEPT !.c = Plus(q, SlotOf(q, g), <<v>>)]
        /\ cc' = Append(cc, <<SlotOf(q, g), <<v>>>>)
  /\ Log(<<"ccnt", g, v>>) /\ UNCHANGED <<bc, mins>>
DirectBackoff(c, v) ==
  /\ (Loose \/ MayBackoff(s, c, <<v>>)) = TRUE
  /\ s' = Both(s, LAMBDA l : Backoff(l, c, <<v>>))
  /\ t' = IF c = 0 THEN [t EXCEPT !.u = VAdd(@, <<v>>)]
          ELSE LET q == WithSlot(t.b, c, <<0>>)
                   r == Plus(q, SlotOf(q, c), <<v>>)
               IN [t EXCEPT !.b = IF IsZero(r[SlotOf(q, c)][2]) THEN Drop(r, SlotOf(q, c)) ELSE r]
  /\ Log(<<"bo", c, v>>) /\ UNCHANGED <<cc, bc, mins>>
TryBack(c, v) ==
  /\ s.open /\ s' = Try(s, LAMBDA l : TryBackoff(l, c, <<v>>))
  /\ IF c = 0 THEN t' = [t EXCEPT !.u = VAdd(@, <<v>>)] /\ bc' = Append(bc, <<0, <<v>>>>)
     ELSE LET q == WithSlot(t.b, c, <<0>>)
          IN t' = [t EXCEPT !.b = Plus(q, SlotOf(q, c), <<v>>)] /\ bc' = Append(bc, <<SlotOf(q, c), <<v>>>>)
  /\ Log(<<"cbo", c, v>>) /\ UNCHANGED <<cc, mins>>
Reset ==
  /\ s' = Keep(s) /\ cc' = <<>> /\ bc' = <<>> /\ mins' = [c |-> Len(t.c), b |-> Len(t.b)]
  /\ Log(<<"reset", 0, 0>>) /\ UNCHANGED t
UndoAll ==
  /\ s.open /\ s' = Undo(s)
  /\ t' = [c |-> Shrink(TakeBack(t.c, cc, Len(t.c)), mins.c),
           b |-> Shrink(TakeBack(t.b, bc, mins.b), mins.b),
           u |-> VAdd(t.u, <<-Unis(bc)>>)]
  /\ Log(<<"undo", 0, 0>>) /\ UNCHANGED <<cc, bc, mins>>
Next == \/ \E g \in Grams, v \in Amounts : Low(Stored(s.cur.c, 0, g) + v) /\ (DirectCount(g, v) \/ TryCount(g, v))
        \/ \E g \in Grams : ForgetCount(g)
        \/ \E c \in Ctxs \cup {0}, v \in Amounts : Low(BackoffOf(s.cur, c)[1] + v) /\ (DirectBackoff(c, v) \/ TryBack(c, v))
        \/ Reset \/ UndoAll
Spec == Init /\ [][Next]_vars
\* --- refinement
AbsC(q) == [g \in Grams |-> IF SlotOf(q, g) = 0 THEN None ELSE q[SlotOf(q, g)][2][1]]
AbsB(q) == [c \in Ctxs |-> IF SlotOf(q, c) = 0 THEN Absent ELSE q[SlotOf(q, c)][2]]
Refines == s.cur = [c |-> AbsC(t.c), b |-> AbsB(t.b), u |-> t.u]
Bound == Len(cc) + Len(bc) <= 3
Emit == hist = <<>> \/ PrintT("CASE|" \o ToJson(hist))
=============================================================================
