----------------------------- MODULE CodesTrace -----------------------------
(* Judges recorded decodings [dec, parts, lab, o]; o = [raised, labelled,  *)
(* vals], vals = costs of the probes (1,0) (1,2) (2,0) (2,2).              *)
EXTENDS CodeOps, TraceLib
VARIABLE l

Values(k, o) ==
    /\ Len(o.vals) = 4
    /\ ValueOk(k, 1, 0, o.vals[1]) /\ ValueOk(k, 1, 2, o.vals[2])
    /\ ValueOk(k, 2, 0, o.vals[3]) /\ ValueOk(k, 2, 2, o.vals[4])

Clauses(r) ==
    LET k == Den(r.dec, r.parts, r.lab)
        o == r.o
    IN  IF k.id = "free" THEN {}
        ELSE IF k.id = "refused" THEN IF o.raised = "" THEN {"accepted"} ELSE {}
        ELSE IF r.dec = "robustify" /\ ~Samplable(k, r.lab) THEN {}
        ELSE IF o.raised # "" THEN {"raised"}
        ELSE IF Checkable(k) /\ ~Values(k, o) THEN {"another-cost"} ELSE {}

Init == l = 1
Step == /\ l <= Len(Log) /\ Report(l, Clauses(Log[l])) /\ l' = l + 1
Spec == Init /\ [][Step]_l
=============================================================================
