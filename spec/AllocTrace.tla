----------------------------- MODULE AllocTrace -----------------------------
(* Judges recorded portfolio allocations: [k, s, o], o = [raised, w,       *)
(* diverged]: the allocation in micro; whether it is not a number and the  *)
(* solver said so.                                                         *)
EXTENDS DecideOps, TraceLib
VARIABLE l
NaN == 999999999
(* Interior point solutions are accurate up to their tolerance. *)
Slack(k) == IF k.solver = "dedicated" THEN 40 ELSE 5
Clauses(k, s, o) ==
    IF o.raised # "" THEN {"raised"}
    ELSE IF o.diverged THEN {}
    ELSE IF NaN \in Vals(o.w) THEN {"not-a-number"}
    ELSE IF Len(o.w) # s.d THEN {"one-share-per-asset"}
    ELSE IF OnSimplex(o.w, Slack(k)) THEN {} ELSE {"off-the-simplex"}
Init == l = 1
Step == /\ l <= Len(Log)
        /\ LET r == Log[l] IN Report(l, Clauses(r.k, r.s, r.o))
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
=============================================================================
