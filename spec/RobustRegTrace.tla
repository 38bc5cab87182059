--------------------------- MODULE RobustRegTrace ---------------------------
(* Judges recorded solutions of the dedicated regressions: [k, s, o], o =  *)
(* [raised, w, b, result, margins, slopes, losses]; the last three are the *)
(* margins of the samples and the elementary functions there (logistic).   *)
EXTENDS RobustRegOps, TraceLib
VARIABLE l
Model(o) == [w |-> o.w, b |-> o.b]
(* Moves that must not improve the objective. *)
Moves(m, icpt) ==
    {[m EXCEPT !.w[j] = @ + h] : j \in 1..Len(m.w), h \in {-500000, -60000, 60000, 500000}}
    \cup {[m EXCEPT !.w = [j \in 1..Len(m.w) |-> RDiv(9 * m.w[j], 10)]]}
    \cup (IF icpt THEN {[m EXCEPT !.b = @ + h] : h \in {-500000, -60000, 60000, 500000}} ELSE {})
LinClauses(k, s, o) ==
    LET m == Model(o)
        r == TLCEval(Residuals(m, s.x, s.y))
        here == TLCEval(LinObjective(k, m, s.x, s.y))
    IN (IF Top(r) < 5000 \/ Stationary(k, o.w, [j \in 1..s.d |-> LinSlope(r, Column(s.x, j))], 3000, 8)
        THEN {} ELSE {"not-stationary"})
       \cup (IF Top(r) < 5000 \/ ~k.icpt \/ Close(LinSlope(r, [i \in 1..Len(s.x) |-> 1]), 0, 8)
             THEN {} ELSE {"intercept-not-stationary"})
       \cup (IF \A p \in Moves(m, k.icpt) : LinObjective(k, p, s.x, s.y) >= here - 3000
             THEN {} ELSE {"improvable"})
LogClauses(k, s, o) ==
    LET m == Model(o)
        g == TLCEval([j \in 1..s.d |-> LogSlope(o.slopes, s.y, Column(s.x, j))])
        value == Frac(Norm(o.w), k.rho) + RDiv(SumSeq(o.losses), Len(s.y))
    IN (IF \A i \in 1..Len(s.y) : Close(o.margins[i], Margins(m, s.x, s.y)[i], 100)
        THEN {} ELSE {"margins"})
       \cup (IF Stationary(k, o.w, g, 20000, 15) THEN {} ELSE {"not-stationary"})
       \cup (IF ~k.icpt \/ Close(LogSlope(o.slopes, s.y, [i \in 1..Len(s.x) |-> 1]), 0, 15)
             THEN {} ELSE {"intercept-not-stationary"})
       \cup (IF Close(o.result, value, 8000) THEN {} ELSE {"reported-optimum"})
Clauses(k, s, o) ==
    IF o.raised # "" THEN {"raised"}
    ELSE IF Len(o.w) # s.d THEN {"one-coefficient-per-feature"}
    ELSE (IF k.icpt \/ o.b = 0 THEN {} ELSE {"intercept-not-fitted"})
         \cup (IF k.cls = "lr" THEN LinClauses(k, s, o) ELSE LogClauses(k, s, o))
Init == l = 1
Step == /\ l <= Len(Log)
        /\ LET r == Log[l] IN Report(l, Clauses(r.k, r.s, r.o))
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
=============================================================================
