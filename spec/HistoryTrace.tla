---------------------------- MODULE HistoryTrace ----------------------------
(* Judges recorded histories: [i, e, o], o = [raised, now, ref], now: the  *)
(* model in the slot (coefficients, intercepts, multiplier, objective,     *)
(* results on a probe), ref: the same for a fresh estimator in a fresh     *)
(* process, configured as the history says. The configurations are         *)
(* recomputed from the events.                                             *)
EXTENDS HistoryOps, TraceLib
VARIABLES l, slots
None == Fresh(<<>>, 0)
Agree(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Close(s[i], t[i], 200 + Abs(t[i]) \div 2000)
Key(slot, e) == IF e.op = "fit" THEN [k |-> slot.k, rule |-> slot.rule, d |-> e.d]
                ELSE [k |-> slot.fit.k, rule |-> slot.fit.rule, d |-> slot.fit.d]
Clauses(slot, e, o) ==
    IF e.op = "fail" THEN {}
    ELSE IF e.op \notin {"fit", "look"} THEN (IF o.raised # "" THEN {"raised"} ELSE {})
    ELSE (IF e.key = Key(slot, e) THEN {} ELSE {"key"})
    \cup IF o.raised # o.ref.raised THEN {"raised"}
    ELSE IF o.raised # "" THEN {}
    ELSE (IF Agree(o.now.model, o.ref.model) THEN {} ELSE {"model"})
         \cup (IF Agree(o.now.dual, o.ref.dual) THEN {} ELSE {"multiplier"})
         \cup (IF (e.op = "look" /\ ~e.probe) \/ Agree(o.now.probe, o.ref.probe) THEN {}
               ELSE {"predictions"})
Init == l = 1 /\ slots = [s \in 1..9 |-> None]
Step == /\ l <= Len(Log)
        /\ LET r == Log[l]
               old == IF r.i = 1 THEN [s \in 1..9 |-> None] ELSE slots
           IN /\ Report(l, Clauses(IF r.e.s = 0 THEN None ELSE old[r.e.s], r.e, r.o))
              /\ slots' = IF r.e.s = 0 THEN old
                          ELSE [old EXCEPT ![r.e.s] = After(@, r.e)]
        /\ l' = l + 1
Spec == Init /\ [][Step]_<<l, slots>>
=============================================================================
