----------------------------- MODULE WiringTrace -----------------------------
(* Judges recorded trainings against the functional interface: [k, s, pb,  *)
(* o], o = [raised, fit, refs]: coefficients (then intercepts), multiplier *)
(* and final objective of the estimator, and the same for the functional   *)
(* problem, with and (if left free) without importance sampling.           *)
EXTENDS WiringOps, TraceLib
VARIABLE l
Wild == 100 * MICRO
Agrees(a, b) == IF Abs(b) > Wild THEN Abs(a) > Wild \div 2
                ELSE Close(a, b, 300 + Abs(b) \div 2000)
(* Once something is wild the rest means nothing. *)
Tame(r) == \A i \in 1..Len(r.coef) : Abs(r.coef[i]) <= Wild
Same(o, r) == Len(o.coef) = Len(r.coef)
              /\ IF Tame(r) THEN \A i \in 1..Len(r.coef) : Agrees(o.coef[i], r.coef[i])
                 ELSE \E i \in 1..Len(r.coef) : Abs(o.coef[i]) > Wild \div 2
Refs(k, o) == {o.refs[i] : i \in 1..(IF ImpSampFree(k) THEN Len(o.refs) ELSE 1)}
Clauses(k, s, pb, o) ==
    IF o.raised # "" THEN {"raised"}
    ELSE (IF pb.post = Post(k) /\ pb.loss = LossOf(k, s.classes) THEN {} ELSE {"problem"})
    \cup (IF \E r \in Refs(k, o) :
               /\ Same(o.fit, r)
               /\ Tame(r) => Agrees(o.fit.dual, r.dual) /\ Agrees(o.fit.obj, r.obj)
          THEN {}
          ELSE IF \E r \in Refs(k, o) : Same(o.fit, r) THEN {"multiplier-or-objective"}
          ELSE {"coefficients"})
Init == l = 1
Step == /\ l <= Len(Log)
        /\ LET r == Log[l] IN Report(l, Clauses(r.k, r.s, r.pb, r.o))
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
=============================================================================
