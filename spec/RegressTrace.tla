---------------------------- MODULE RegressTrace ----------------------------
(* Judges recorded trainings of the linear regression: [k, s, o], o =      *)
(* [raised, w, b, null, pred, rows, alone, wild]: coefficients, intercept, *)
(* prediction at the null point and at the queries (the latter divided by  *)
(* the unit of the queries), in micro.                                     *)
EXTENDS Num, TraceLib
VARIABLE l
Tol == 150
Slack(v) == Tol + Abs(v) \div 100000
Affine(s, o, q) == Dot(q, o.w) + RDiv(o.b * s.unit[2], s.unit[1])
Clauses(k, s, o) ==
    IF o.raised # "" THEN {"raised"}
    ELSE (IF Len(o.w) = s.d THEN {} ELSE {"one-coefficient-per-feature"})
    \cup (IF o.rows /\ Len(o.pred) = Len(s.q) THEN {} ELSE {"one-number-per-row"})
    \cup (IF o.wild \/ Len(o.w) # s.d \/ Len(o.pred) # Len(s.q)
             \/ \A i \in 1..Len(s.q) : With(Affine(s, o, s.q[i]), LAMBDA v : Close(o.pred[i], v, Slack(v)))
          THEN {} ELSE {"affine"})
    \cup (IF Close(o.null, IF k.icpt THEN o.b ELSE 0, Tol) THEN {} ELSE {"null-point"})
    \cup (IF ~k.icpt /\ o.b # 0 THEN {"intercept-not-fitted"} ELSE {})
    \cup (IF o.alone THEN {} ELSE {"depends-on-the-batch"})
Init == l = 1
Step == /\ l <= Len(Log)
        /\ LET r == Log[l] IN Report(l, Clauses(r.k, r.s, r.o))
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
=============================================================================
