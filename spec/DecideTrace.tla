----------------------------- MODULE DecideTrace -----------------------------
(* Judges recorded evaluations of decisions: [k, s, o], o = [raised, w,    *)
(* tau, wild, evals], an evaluation being [value, number, opposite].       *)
EXTENDS DecideOps, TraceLib
VARIABLE l
Dec(o) == [w |-> o.w, tau |-> o.tau]
EvalClauses(k, s, set, o, e) ==
    LET ys == IF set.weighted THEN set.y ELSE [i \in 1..Len(set.x) |-> s.wden] IN
    (IF e.number THEN {} ELSE {"not-a-number"})
    \cup (IF o.wild \/ Close(e.value, Average(k, s, Dec(o), set.x, ys), Tol(k, Len(o.w), ys)) THEN {}
          ELSE {"not-the-average-loss"})
    \cup (IF e.opposite THEN {} ELSE {"score"})
Clauses(k, s, o) ==
    IF o.raised # "" THEN {"raised"}
    ELSE (IF Len(o.w) = s.d THEN {} ELSE {"decision-dimension"})
         \cup (IF Len(o.evals) = Len(s.sets)
               THEN UNION {EvalClauses(k, s, s.sets[i], o, o.evals[i]) : i \in 1..Len(s.sets)}
               ELSE {"evaluations"})
Init == l = 1
Step == /\ l <= Len(Log)
        /\ LET r == Log[l] IN Report(l, Clauses(r.k, r.s, r.o))
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
=============================================================================
