------------------------- MODULE RobustSupportTrace -------------------------
(* Judges recorded solutions of the dedicated portfolio solver with bounds *)
(* on the returns: [k, x, o], o = [raised, w, tau, lam, result].           *)
EXTENDS RobustSupportOps, TraceLib
VARIABLE l
Tol(k) == 500 + RiskRatio(k, 200) + Frac(60 + RiskRatio(k, 60), k.rho)
Steps == {<<1, 2>>, <<1, 8>>, <<1, 64>>}
Around(v) == {v} \cup {v + s * h : s \in {-1, 1}, h \in {20000, 200000}}
Clauses(k, x, o) ==
    IF o.raised # "" THEN {"raised"}
    ELSE IF Len(o.w) # k.d THEN {"one-share-per-asset"}
    ELSE LET w == TLCEval([c \in 1..k.d |-> Max2(0, o.w[c])])
             here == TLCEval(SupportValue(k, x, w, o.tau, o.lam))
             g == IF k.d <= 2 THEN 8 ELSE IF k.d = 3 THEN 4 ELSE 2
             lams(v) == Multipliers(k, v) \cup {z \in Around(o.lam) : z >= 0}
             better(v, taus) == BestOf(k, x, v, lams(v), taus) < o.result - Tol(k)
         IN (IF /\ \A i \in 1..k.d : o.w[i] >= -100
                /\ Close(SumSeq(o.w), MICRO, 100) THEN {} ELSE {"off-the-simplex"})
            \cup (IF Close(o.result, here, Tol(k)) THEN {} ELSE {"reported-optimum"})
            \cup (IF better(w, Thresholds(x, w) \cup Around(o.tau)) THEN {"better-threshold"} ELSE {})
            \cup (IF \E v \in Grid(k.d, g) : better(v, Thresholds(x, v) \cup {o.tau})
                  THEN {"better-allocation"} ELSE {})
            \cup (IF \E j \in 1..k.d, s \in Steps :
                        With(Towards(w, j, s[1], s[2]),
                             LAMBDA v : better(v, Thresholds(x, v) \cup {o.tau}))
                  THEN {"better-neighbour"} ELSE {})
Init == l = 1
Step == /\ l <= Len(Log)
        /\ LET r == Log[l] IN Report(l, Clauses(r.k, r.x, r.o))
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
=============================================================================
