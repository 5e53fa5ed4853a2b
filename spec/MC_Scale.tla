------------------------------ MODULE MC_Scale ------------------------------
(* The formulas of Scale against KNCounts (reading a text token by token,   *)
(* finishing order after order) and NgramModel, on small texts and models.  *)
EXTENDS Scale
CONSTANTS Sizes, MaxRounds, MaxOrder, Skips
K == INSTANCE KNCounts
M == INSTANCE NgramModel

VARIABLES t, cfg, pos, win, s, ph
vars == <<t, cfg, pos, win, s, ph>>
InvOf(n, d) == CHOOSE i \in 1..(n - 1) : (i * d) % n = 1 % n
Init == /\ \E n \in Sizes : \E r \in 1..MaxRounds : \E st \in [1..r -> 0..(n - 1)] : \E sd \in [1..r -> 1..(n - 1)] : \E cb \in BOOLEAN :
              /\ \A i, j \in 1..r : i # j => sd[i] # sd[j]
              /\ t = [n |-> n, comb |-> cb, st |-> st, sd |-> sd, inv |-> [i \in 1..r |-> InvOf(n, sd[i])]]
        /\ cfg \in [n : 1..MaxOrder, absolute : BOOLEAN]
        /\ pos = 0 /\ win = <<>> /\ s = [c |-> K!Empty, b |-> <<>> :> K!NoBo] /\ ph = cfg.n
Read == /\ pos < Length(t)
        /\ win' = K!NextWindow(win, Tok(t, pos), cfg.n, FALSE)
        /\ s' = [s EXCEPT !.c = K!Bump(@, win', 1)]
        /\ pos' = pos + 1 /\ UNCHANGED <<t, cfg, ph>>
Estimate == /\ pos = Length(t) /\ ph > 0
            /\ s' = K!EstimateOrder(s.c, s.b, ph, cfg.absolute)
            /\ ph' = ph - 1 /\ UNCHANGED <<t, cfg, pos, win>>
Classes == /\ pos = Length(t) /\ ph = 0
           /\ s' = [s EXCEPT !.b = K!ClassesOf(s.c, s.b)]
           /\ ph' = -1 /\ UNCHANGED <<t, cfg, pos, win>>
Next == Read \/ Estimate \/ Classes
Spec == Init /\ [][Next]_vars
Done == ph = -1
Proper == ProperText(t)
SameCounts == Done => \A o \in 1..cfg.n : \A g \in [1..o -> Words(t)] : K!Get(s.c, g) = Count(t, cfg.n, cfg.absolute, g)
View(r) == <<r.den, r.nz1, r.nz2, r.nz3>>
SameContexts == Done => /\ View(s.b[<<>>]) = AfterNothing(t, cfg.n, cfg.absolute)
                        /\ \A o \in 1..(cfg.n - 1) : \A h \in [1..o -> Words(t)] :
                              View(K!GetBo(s.b, h)) = After(t, cfg.n, cfg.absolute, h)
SameSizes == Done => \A o \in 1..cfg.n :
                /\ Size(t, o) = Cardinality(K!GramsOf(s.c, o))
                /\ Contexts(t, o) = Cardinality({h \in DOMAIN s.b : Len(h) = o - 1 /\ (h = <<>> \/ s.b[h].den # 0)})
\* the model of a text's numbers, asked directly and through its tables
Model(k, o, sp) == [n |-> t.n, s |-> t.sd[1], skip |-> sp, hub |-> IF t.comb THEN t.st[1] ELSE -1, order |-> o, a |-> k, b |-> k + 3]
Table(m) == LET G == UNION {{g \in [1..o -> 0..(m.n - 1)] : Holds(m, g)} : o \in 1..m.order}
            IN [p |-> [g \in G |-> Value(m, g)], w |-> [g \in {g \in G : Weight(m, g) # 0} |-> Weight(m, g)]]
SameAnswers == Done => \A sp \in Skips : LET m == Model(cfg.n + t.st[1], cfg.n, sp)
                                             T == TLCEval(Table(m))
                                         IN \A o \in 1..cfg.n : \A g \in [1..o -> 0..(t.n - 1)] : Ask(m, g) = M!LogBo(T, g, 0)
Closed == Done => \A sp \in Skips : LET m == Model(cfg.n, cfg.n, sp) D == DOMAIN Table(m).p
                                    IN \A g \in D : Len(g) > 1 => Tail(g) \in D /\ SubSeq(g, 1, Len(g) - 1) \in D
\* numbers in limbs
ASSUME \A a, b \in {0, 1, 9999, 10000, 12345678, 99999999} :
    LET L(x) == Carry(<<x>>, 0)
        V(x) == FoldRight(LAMBDA d, acc : acc * Base + d, x, 0)
        N(x) == IF x = 0 THEN <<>> ELSE Carry(<<x % Base, x \div Base>>, 0)
    IN V(Plus(N(a), N(b))) = a + b
\* KNCounts with small numbers and with limbs
SameBig == pos = Length(t) /\ ph = cfg.n /\ cfg.n > 1 =>
    LET c == [g \in {g \in DOMAIN s.c : Len(g) = cfg.n} |-> s.c[g]]
        big == BigCounts([g \in DOMAIN c |-> <<c[g]>>], cfg.n, cfg.absolute)
        one == K!EstimateOrder(c, <<>> :> K!NoBo, cfg.n, cfg.absolute)
    IN \A g \in {g \in DOMAIN one.c : Len(g) >= cfg.n - 1} : big[g] = <<one.c[g]>>
=============================================================================
