----------------------------- MODULE WrapTrace -----------------------------
(* Judges evaluations [c, s, o] of wrapped losses; o = [raised, vals,      *)
(* shape].                                                                 *)
EXTENDS WrapOps, TraceLib
VARIABLE l

Clauses(c, s, o) ==
    IF c.announced # "none" THEN IF o.raised = "" THEN {"reducing-loss-accepted"} ELSE {}
    ELSE IF o.raised # "" THEN {"raised"}
    ELSE (IF ShapeOk(s, o.shape) THEN {} ELSE {"shape"})
         \cup (IF /\ Len(o.vals) = Count(s)
                  /\ \A i \in 1..Count(s) : Close(o.vals[i], One(c, s.x[i], s.y[i]), IF c.f32 THEN 150 ELSE 3)
               THEN {} ELSE {"value"})
Init == l = 1
Step == /\ l <= Len(Log)
        /\ LET r == Log[l] IN Report(l, Clauses(r.c, r.s, r.o))
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
=============================================================================
