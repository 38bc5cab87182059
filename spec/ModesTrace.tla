----------------------------- MODULE ModesTrace -----------------------------
(* Judges recorded lives: events [i, k, e, o] with o = [raised, rg, mode,  *)
(* kept, self, top]: flags of the parameters and modules, whether the      *)
(* parameter values are the initial ones bit for bit, what a switch        *)
(* returned, and whether the robust loss itself is in training mode.       *)
EXTENDS ModesOps, TraceLib
VARIABLES l, s
Expected(e) == IF e.op = "broken" THEN "ScriptedFailure" ELSE ""
(* A null radius needs no gradient at the data, evaluations may succeed.   *)
RaisedOk(k, e, o) ==
    o.raised = Expected(e) \/ (e.op = "broken" /\ o.raised = "")
Clauses(k, e, o, t) ==
    (IF RaisedOk(k, e, o) THEN {} ELSE {"raised"})
    \cup (IF o.rg = t.rg THEN {} ELSE {"trainable-flags"})
    \cup (IF o.mode = t.mode THEN {} ELSE {"training-modes"})
    \cup (IF o.kept THEN {} ELSE {"parameter-values"})
    \cup (IF Switch(e) /\ ~o.self THEN {"switch-returns-self"} ELSE {})
    \cup (IF Switch(e) /\ o.top # t.mode[1] THEN {"switch-of-the-loss"} ELSE {})
Init == l = 1 /\ s = Fresh
Step == /\ l <= Len(Log)
        /\ LET r == Log[l]
               t == TLCEval(Effect(IF r.i = 1 THEN Fresh ELSE s, r.e))
           IN  Report(l, Clauses(r.k, r.e, r.o, t)) /\ s' = t
        /\ l' = l + 1
Spec == Init /\ [][Step]_<<l, s>>
=============================================================================
