----------------------------- MODULE CostsTrace -----------------------------
(* Judges recorded cost evaluations [k, s, o], o = [raised, vals, shape].  *)
EXTENDS CostOps, TraceLib
VARIABLE l

ValueOk(k, s, o) ==
    /\ Len(o.vals) = s.n * s.m
    /\ \A j \in 1..s.n : \A i \in 1..s.m :
         CostOk(k, Sub(s.x[i], s.zx[j][i]), Sub(s.y[i], s.zy[j][i]), s.f32,
                o.vals[(j - 1) * s.m + i])
ShapeOk(s, o) ==
    o.shape = CASE s.lay = "flat" -> <<1>> [] s.lay = "batch" -> <<s.m, 1>>
                [] s.lay = "stack" -> <<s.n, s.m, 1>>

Clauses(k, s, o) ==
    IF Refused(k) THEN IF o.raised = "" THEN {"negative-penalty-accepted"} ELSE {}
    ELSE IF o.raised # "" THEN {"raised"}
    ELSE (IF ShapeOk(s, o) THEN {} ELSE {"shape"})
         \cup (IF ValueOk(k, s, o) THEN {} ELSE {"value"})

Init == l = 1
Step == /\ l <= Len(Log)
        /\ LET r == Log[l] IN Report(l, Clauses(r.k, r.s, r.o))
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
=============================================================================
