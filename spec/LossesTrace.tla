---------------------------- MODULE LossesTrace ----------------------------
(* Judges evaluations [f, p, s, o] of the built-in losses.                 *)
EXTENDS LossesOps, TraceLib
VARIABLE l
ShapeOk(s, sh) == sh = IF s.lay = "batch" THEN <<s.m, 1>> ELSE <<s.n, s.m, 1>>
(* The risk level is held in simple precision. *)
Tol(f, p, v) == IF p.f32 THEN 30 + Abs(v) \div 1000000 + (IF f = "portfolio" THEN 900 ELSE 0)
                ELSE 5 + (IF f = "portfolio" THEN 20 + Abs(v) \div 5000000 ELSE 0)
ValueOk(f, p, got, v) == Close(got, v, Tol(f, p, v))
Clauses(f, p, s, o) ==
    IF o.raised # "" THEN {"raised"}
    ELSE (IF ShapeOk(s, o.shape) THEN {} ELSE {"shape"})
         \cup (IF /\ Len(o.vals) = Len(s.x)
                  /\ \A i \in 1..Len(s.x) : ValueOk(f, p, o.vals[i], Value(f, p, s.x[i], s.y[i]))
               THEN {} ELSE {"value"})
Init == l = 1
Step == /\ l <= Len(Log)
        /\ LET r == Log[l] IN Report(l, Clauses(r.f, r.p, r.s, r.o))
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
=============================================================================
