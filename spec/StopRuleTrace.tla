---------------------------- MODULE StopRuleTrace ----------------------------
(* Judges recorded answers [i, c, e, o] of a stopping rule.                *)
EXTENDS StopRuleOps, TraceLib
VARIABLES l, obs
Clauses(c, e, o, seen) ==
    IF o.raised # "" THEN {"raised"}
    ELSE IF e.op = "reset" \/ Free(c, seen) THEN {}
    ELSE IF o.stop = Stop(c, seen, e.it) THEN {}
    ELSE IF o.stop THEN {"stops-too-early"} ELSE {"does-not-stop"}
After(e, seen) == IF e.op = "reset" THEN <<>> ELSE Append(seen, e.o)
Init == l = 1 /\ obs = <<>>
Step == /\ l <= Len(Log)
        /\ LET r == Log[l]
               seen == TLCEval(After(r.e, IF r.i = 1 THEN <<>> ELSE obs))
           IN  Report(l, Clauses(r.c, r.e, r.o, seen)) /\ obs' = seen
        /\ l' = l + 1
Spec == Init /\ [][Step]_<<l, obs>>
=============================================================================
