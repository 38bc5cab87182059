-------------------------- MODULE MultiplierTrace --------------------------
(* Judges recorded lives of multipliers: [i, k, e, o], o = [raised, sign,  *)
(* rep] (signs of the multiplier after the event, 2 if not a number, and   *)
(* of the reported one).                                                   *)
EXTENDS Num, TraceLib
VARIABLE l
Clauses(e, o) ==
    IF o.raised # "" THEN {"raised"}
    ELSE (IF o.sign >= 0 THEN {} ELSE {"negative-multiplier"})
         \cup (IF e.op = "solve" /\ o.rep < 0 THEN {"negative-report"} ELSE {})
Init == l = 1
Step == /\ l <= Len(Log)
        /\ LET r == Log[l] IN Report(l, Clauses(r.e, r.o))
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
=============================================================================
