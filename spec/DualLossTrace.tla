--------------------------- MODULE DualLossTrace ---------------------------
(***************************************************************************)
(* Judges the evaluations recorded from the implementation.  Each record   *)
(* is [k, c, e, o]: the position of the event in the life of its object    *)
(* (1 = the object was just built), its configuration, the event, and the  *)
(* observation o = [raised, vals, shape, grads, gl, gw, draws].            *)
(***************************************************************************)
EXTENDS DualLossOps, TraceLib

VARIABLES l, st
vars == <<l, st>>

(* Tolerances on values (micro) and derivatives (myria).  The terms of a   *)
(* displaced sample cancel each other: they count by their own size.       *)
TolV(c, e, size, v) ==
    M(e) + size \div 10 + (IF c.f32 THEN 300 + Abs(v) \div 50000
                           ELSE IF c.r2 = 0 THEN 2 ELSE 60)
TolG(c, e, size, v) == M(e) + (IF c.f32 THEN 20 + Abs(v) \div 5000 ELSE 6)

MovedSize(c, e, z) ==
    IF ~IsOn(c) \/ e.lam = 0 \/ c.r2 <= 0 THEN 0
    ELSE MaxSet({0} \cup
           {With(Moved(c, e, z)[j][i], LAMBDA s : Abs(PrimalLoss(c, s.x, s.y))) :
              i \in 1..M(e), j \in 1..Len(z)})

SeqClose(c, e, size, got, want, Tol(_, _, _, _)) ==
    Len(got) = Len(want)
    /\ \A i \in 1..Len(got) : Close(got[i], want[i], Tol(c, e, size, want[i]))

ShapeOk(c, e, o) ==
    IF c.red = "none" THEN o.shape = <<M(e)>> ELSE Len(o.vals) = 1

GradClauses(c, e, z, o) ==
    IF ~o.grads THEN {}
    ELSE IF c.r2 = 0
    THEN (IF SeqClose(c, e, 0, o.gw, ErmGradTheta(c, e), TolG) THEN {} ELSE {"gradient-theta"})
         \cup (IF o.gl = 0 THEN {} ELSE {"gradient-multiplier"})
    ELSE IF IsOn(c) THEN {}
    ELSE (IF SeqClose(c, e, 0, o.gw, GradTheta(c, e, z, NoCorr(c, e, z)), TolG)
          THEN {} ELSE {"gradient-theta"})
         \cup (IF SeqClose(c, e, 0, <<o.gl>>, <<GradLam(c, e, z, NoCorr(c, e, z))>>, TolG)
               THEN {} ELSE {"gradient-multiplier"})

Clauses(s, c, e, o) ==
    IF MustFail(s, c, e)
    THEN IF o.raised = "ValueError" THEN {} ELSE {"not-refused"}
    ELSE IF o.raised # "" THEN {"raised"}
    ELSE With(IF c.r2 = 0 THEN <<>> ELSE Used(s, c, e), LAMBDA z :
         (IF \E w \in Outcomes(s, c, e) : SeqClose(c, e, MovedSize(c, e, z), o.vals, w, TolV)
          THEN {} ELSE {"value"})
         \cup (IF ShapeOk(c, e, o) THEN {} ELSE {"shape"})
         \cup GradClauses(c, e, z, o)
         \cup (IF c.scheme = "post" /\ c.r2 > 0 /\ ~(\E d \in 1..Len(o.draws) : o.draws[d] = e.n)
               THEN {"draws"} ELSE {})
         \cup (IF c.scheme = "pre" /\ o.draws # <<>> THEN {"draws"} ELSE {}))

Init == l = 1 /\ st = <<>>

Before(r) == IF r.k = 1 THEN InitState(r.c) ELSE st

Step ==
    /\ l <= Len(Log)
    /\ LET r == Log[l] IN
         /\ Report(l, Clauses(Before(r), r.c, r.e, r.o))
         /\ st' = NextState(Before(r), r.c, r.e)
    /\ l' = l + 1

Spec == Init /\ [][Step]_vars
=============================================================================
