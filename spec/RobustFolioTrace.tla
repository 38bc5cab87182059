-------------------------- MODULE RobustFolioTrace --------------------------
(* Judges recorded solutions of the dedicated portfolio solver: [k, x, o], *)
(* o = [raised, w, tau, result].                                           *)
EXTENDS RobustFolioOps, TraceLib
VARIABLE l
(* The square root is a multiple of 25. *)
Tol(k) == 300 + Frac(60 + RiskRatio(k, 60), k.rho)
Steps == {<<1, 2>>, <<1, 8>>, <<1, 64>>}
Clauses(k, x, o) ==
    IF o.raised # "" THEN {"raised"}
    ELSE IF Len(o.w) # k.d THEN {"one-share-per-asset"}
    ELSE LET here == TLCEval(Value(k, x, o.w, o.tau))
             g == IF k.d <= 2 THEN 12 ELSE IF k.d = 3 THEN 6 ELSE IF k.d = 4 THEN 4 ELSE 2
         IN (IF /\ \A i \in 1..k.d : o.w[i] >= -100
                /\ Close(SumSeq(o.w), MICRO, 100) THEN {} ELSE {"off-the-simplex"})
            \cup (IF Close(o.result, here, Tol(k)) THEN {} ELSE {"reported-optimum"})
            \cup (IF \A w \in Grid(k.d, g) : BestValue(k, x, w) >= here - Tol(k) THEN {}
                  ELSE {"better-allocation"})
            \cup (IF \A j \in 1..k.d, s \in Steps :
                        BestValue(k, x, Towards(o.w, j, s[1], s[2])) >= here - Tol(k)
                     /\ BestValue(k, x, o.w) >= here - Tol(k)
                  THEN {} ELSE {"better-neighbour"})
Init == l = 1
Step == /\ l <= Len(Log)
        /\ LET r == Log[l] IN Report(l, Clauses(r.k, r.x, r.o))
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
=============================================================================
