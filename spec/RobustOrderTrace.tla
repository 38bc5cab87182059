-------------------------- MODULE RobustOrderTrace --------------------------
(* Judges recorded orders of the dedicated newsvendor solver: [k, x, o],   *)
(* o = [raised, t], the order divided by the unit of the demands.          *)
EXTENDS RobustOrderOps, TraceLib
VARIABLE l
Tol == 300
Clauses(k, x, o) ==
    IF o.raised # "" THEN {"raised"}
    ELSE LET s == TLCEval(Sorted(x))
             ms == TLCEval(Moved(s, Budget(k, Len(x))))
         IN (IF o.t >= -20 THEN {} ELSE {"negative-order"})
            \cup (IF o.t <= 20 * MICRO
                     /\ NValue(k, s, ms, o.t) <= BestNValue(k, s, ms) + Len(x) * Tol
                  THEN {} ELSE {"not-optimal"})
Init == l = 1
Step == /\ l <= Len(Log)
        /\ LET r == Log[l] IN Report(l, Clauses(r.k, r.x, r.o))
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
=============================================================================
