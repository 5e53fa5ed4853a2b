------------------------------- MODULE MC_Walk -------------------------------
(* Walks over every small tree.  The machine the code runs (climb until    *)
(* there is a next continuation) finds the same n-gram as the order of     *)
(* sequences; a full walk meets every n-gram once.                         *)
EXTENDS Walk, Json
CONSTANTS Words,      \* word numbers 0..Words-1, each a unigram
          Depth,      \* longest n-gram
          Steps,      \* how long the behaviours printed by Emit are
          Tops        \* the most n-grams of length 2 and more
VARIABLES T, at, seen, log, over
vars == <<T, at, seen, log, over>>

W == 0..(Words - 1)
Longer == UNION {[1..n -> W] : n \in 2..Depth}
Closed(S) == \A x \in S : Len(x) = 2 \/ Front(x) \in S
Unis == {<<w>> : w \in W}
Trees == {Unis \cup S : S \in {S \in UNION {kSubset(j, Longer) : j \in 0..Tops} : Closed(S)}}

Ops == {<<"next", 0>>, <<"move", 1>>, <<"move", -1>>, <<"move", 2>>, <<"up", 0>>, <<"down", 0>>, <<"has", 0>>}
       \cup {<<"order", o>> : o \in 1..Depth}
Orders == Max({Len(x) : x \in T})

Init == T \in Trees /\ at = <<>> /\ seen = {} /\ log = <<>> /\ over = FALSE

\* the full walk
Walk == /\ ~over
        /\ LET r == WNext(T, at) IN
             /\ at' = r.at /\ over' = ~r.ok
             /\ seen' = IF r.ok THEN seen \cup {r.at} ELSE seen
        /\ UNCHANGED <<T, log>>
WalkSpec == Init /\ [][Walk]_vars
Whole == over => seen = T
Once == [][over' \/ at' \notin seen]_vars

\* climbing, as the code does it
RECURSIVE Climb(_)
Climb(g) == LET r == Ranked(T, Front(g))
                i == CHOOSE i \in DOMAIN r : r[i] = g
            IN IF i < Len(r) THEN Yes(r[i + 1])
               ELSE IF Len(g) = 1 THEN No(g) ELSE Climb(Front(g))
Machine(g) == IF g = <<>> THEN Yes(<<0>>)
              ELSE IF Kids(T, g) # {} THEN Yes(Ranked(T, g)[1]) ELSE Climb(g)
RECURSIVE MachineOrder(_, _)
MachineOrder(g, o) == LET r == Machine(g) IN
    IF ~r.ok \/ Len(r.at) = o THEN r ELSE MachineOrder(r.at, o)
Same == /\ Machine(at) = WNext(T, at)
        /\ \A o \in 1..Orders : MachineOrder(at, o) = WNextOrder(T, at, o)
        /\ LET L == InOrder(T) X == Places(L) IN
              /\ LNext(L, X, at) = WNext(T, at)
              /\ \A o \in 1..Orders : LNextOrder(L, X, at, o) = WNextOrder(T, at, o)

\* any operations
Do(op) == /\ op[1] \in {"next", "order"} \/ at # <<>>
          /\ op[1] = "order" => op[2] <= Orders
          /\ at' = Step(T, at, op).at /\ log' = Append(log, op)
          /\ UNCHANGED <<T, seen, over>>
AnyStep == Len(log) < Steps /\ \E op \in Ops : Do(op)
AnySpec == Init /\ [][AnyStep]_vars
Stays == at = <<>> \/ at \in T
Back == at # <<>> =>
    /\ WDown(T, at).ok => WUp(T, WDown(T, at).at).at = at
    /\ \A d \in {-2, -1, 1, 2} : WMove(T, at, d).ok => WMove(T, WMove(T, at, d).at, -d) = Yes(at)
    /\ WHas(T, at).ok = WDown(T, at).ok
    /\ WAt(T, at) = Yes(at)
\* the full walk is a walk of the machine, whatever came before
view == <<T, at>>
Emit == Len(log) = Steps => PrintT("CASE|" \o ToJson([tree |-> T, ops |-> log]))
=============================================================================
