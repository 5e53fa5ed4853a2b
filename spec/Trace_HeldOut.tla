--------------------------- MODULE Trace_HeldOut ---------------------------
(* Recorded searches for discounts against HeldOut.                        *)
(*  "train": a training run with held-out data: the events of its searches *)
(*    (start, evaluations, end), the tables each search worked on, and the *)
(*    model file that was written;                                         *)
(*  "valley": the search alone on a measure that is a sum of one valley    *)
(*    per discount, whose lowest points are known (units of 1e-4).         *)
EXTENDS HeldOut, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES k, i, verdict, st, W, cur, low, evals
vars == <<k, i, verdict, st, W, cur, low, evals>>
C == Cases[k]
Words == RangeOf(C.words)
V == Len(C.words) + 1

ToMap(s) == [g \in {s[j][1] : j \in DOMAIN s} |-> LET j == CHOOSE j \in DOMAIN s : s[j][1] = g IN s[j][2]]
\* the count state of a recorded table
State(t) ==
    LET c == TLCEval(ToMap(t.counts))
        m(h, v) == [NoBo EXCEPT !.den = v[Len(v) - 1], !.pruned = v[Len(v)]]
        bs == TLCEval(ToMap(t.bos))
        bb == TLCEval([h \in DOMAIN bs |-> m(h, bs[h])])
    IN [c |-> c, b |-> TLCEval(ClassesOf(c, bb))]
Order == IF C.n > 0 THEN C.n ELSE MaxOf(1, MaxOrder(st.c))

\* discounts by order, from the flat list of the search
Per == IF C.three THEN 3 ELSE 1
Disc(d) == [o \in 1..(Len(d) \div Per) |-> [j \in 1..Per |-> d[(o - 1) * Per + j]]]
Limit(j) == IF C.three THEN (((j - 1) % 3) + 1) * One ELSE One
Slack == 200
InLimits(d) == \A j \in DOMAIN d : d[j] >= 0 - Slack /\ d[j] <= Limit(j) + Slack
Near(d, e, tol) == Len(d) = Len(e) /\ \A j \in DOMAIN d : AbsV(d[j] - e[j]) <= tol
Flat(d) == [x \in 1..(Per * Len(d)) |-> d[((x - 1) \div Per) + 1][((x - 1) % Per) + 1]]

M(d) == Measure(st, Disc(d), V, W, C.err)
Agree(m, v) == ~m.ok \/ AbsV(m.value - v) <= m.tol
NoMeasure == [ok |-> FALSE, value |-> 0, tol |-> 0]
NoHigher(a, b) == ~a.ok \/ ~b.ok \/ a.value <= b.value + a.tol + b.tol
\* the last discount moved to x, if that lies within the limits
Moved(d, x) == [d EXCEPT ![Len(d)] = x]
Step1 == 6 * (One \div 100)
Step2 == 16 * (One \div 100)
Bracketed(d) ==
    LET n == Len(d) x == d[n]
    IN /\ x + Step2 <= Limit(n) => NoHigher(M(Moved(d, x + Step1)), M(Moved(d, x + Step2)))
       /\ x - Step2 >= 0 => NoHigher(M(Moved(d, x - Step1)), M(Moved(d, x - Step2)))

E == C.events[i]
Judge ==
    CASE E[1] = "start" ->
           IF ~InLimits(E[2]) THEN "a start outside the limits"
           \* a text may be too short for the order asked for
           ELSE IF Len(E[2]) < Per * MaxOrder(st.c) THEN "an order has no discounts"
           ELSE IF cur = <<>> /\ C.first /\ ~Near(E[2], Flat(LooDisc(st.c, Len(E[2]) \div Per, C.three)), 4000)
           THEN "the search does not begin at the leave-one-out discounts"
           ELSE IF cur # <<>> /\ ~Near(E[2], cur, 10) THEN "the search does not begin where the last one ended"
           ELSE ""
      [] E[1] = "eval" ->
           IF ~InLimits(E[2]) THEN "a discount outside its limits is tried"
           ELSE IF E[4] /\ ~Agree(M(E[2]), E[3])
           THEN "the measure is " \o ToString(M(E[2])) \o ", not " \o ToString(E[3]) ELSE ""
      [] E[1] = "end" ->
           IF ~InLimits(E[2]) THEN "a result outside the limits"
           ELSE IF evals > C.most * Len(E[2]) THEN "the search goes on and on: " \o ToString(evals)
           ELSE IF ~NoHigher(M(E[2]), low) THEN "worse than at the start: " \o ToString(<<M(E[2]), low>>)
           ELSE IF ~Bracketed(E[2]) THEN "the last discount is not at its best"
           ELSE ""
      [] E[1] = "file" ->
           IF st # State(C.final) THEN "the search changes the counts"
           ELSE FileDiff(st, Disc(cur), C.words, C.arpa, "arpa", C.full)

Init == /\ k \in DOMAIN Cases /\ i = 1 /\ verdict = ""
        /\ st = <<>> /\ W = <<>> /\ cur = <<>> /\ low = NoMeasure /\ evals = 0
Train == /\ C.kind = "train" /\ i <= Len(C.events) /\ verdict = ""
         /\ IF E[1] = "tables"
            THEN /\ st' = State(C.tables[E[2]])
                 /\ W' = HWindows(C.dev, Words, IF C.n > 0 THEN C.n ELSE MaxOf(1, MaxOrder(st'.c)), C.clear)
                 /\ UNCHANGED <<verdict, cur, low, evals>>
            ELSE /\ verdict' = Judge
                 /\ low' = IF E[1] = "start" THEN M(E[2]) ELSE low
                 /\ evals' = CASE E[1] = "start" -> 0 [] E[1] = "eval" -> evals + E[5] [] OTHER -> evals
                 /\ cur' = IF E[1] = "end" THEN E[2] ELSE cur
                 /\ UNCHANGED <<st, W>>
         /\ i' = i + 1 /\ UNCHANGED k

\* valleys: [low, high, start, centre] of each discount, 1e-4
Clamp(x, a, b) == MaxOf(a, MinOf(b, x))
Bad(d) == \E j \in DOMAIN d : d[j] < C.dims[j][1] - 1 \/ d[j] > C.dims[j][2] + 1
ValleyVerdict ==
    IF \E e \in DOMAIN C.points : Bad(C.points[e]) THEN "a point outside the limits is tried"
    ELSE IF C.evals > C.most * Len(C.dims) THEN "the search goes on and on: " \o ToString(C.evals)
    ELSE IF Bad(C.found) THEN "a result outside the limits"
    ELSE IF \E j \in DOMAIN C.dims : AbsV(C.found[j] - Clamp(C.dims[j][4], C.dims[j][1], C.dims[j][2])) > C.within
    THEN "not at the lowest point: " \o ToString(C.found)
    ELSE "ok"
Done == /\ i >= 1
        /\ \/ C.kind = "valley"
           \/ C.kind = "train" /\ (i > Len(C.events) \/ verdict # "")
        /\ PrintT("VERDICT|" \o ToString(k) \o "|" \o
                  (IF C.kind = "valley" THEN ValleyVerdict ELSE IF verdict = "" THEN "ok" ELSE verdict))
        /\ i' = 0 - 1 /\ UNCHANGED <<k, verdict, st, W, cur, low, evals>>
Next == (i >= 1 /\ Train) \/ Done
Spec == Init /\ [][Next]_vars
Mass == st # <<>> => MassOK(st)
=============================================================================
