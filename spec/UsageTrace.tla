----------------------------- MODULE UsageTrace -----------------------------
(* Judges recorded lives of estimators: [i, k, e, o], o = [raised, before, *)
(* after (digests of the arrays passed so far), params (names and values), *)
(* set (value of a changed radius), self (the call returned the            *)
(* estimator), kept (the stopping rule is the object given), out (results  *)
(* in micro), finite (of the model), clone (parameters of a clone),        *)
(* cloneused (whether the clone could be used)].                           *)
EXTENDS UsageOps, TraceLib
VARIABLES l, fitted, given, seen
(* given: parameters; seen: results per method since the last fit *)
NoneSeen == [m \in {"predict", "predict_proba", "score", "eval"} |-> <<>>]
Changed(p, name, v) == [i \in 1..Len(p) |-> IF p[i].n = name THEN [n |-> name, v |-> v] ELSE p[i]]
Given(e, o) == IF e.op = "construct" THEN o.params
               ELSE IF e.op = "set" THEN Changed(given, "rho", o.set) ELSE given
Agree(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Close(s[i], t[i], 100 + Abs(t[i]) \div 10000)
Clauses(k, e, o, ft, old) ==
    (IF Refused(k, ft, e) /\ o.raised = "" THEN {"not-refused"} ELSE {})
    \cup (IF Accepted(k, ft, e) /\ o.raised # "" /\ (e.op = "use" => o.finite)
          THEN {"refused"} ELSE {})
    \cup (IF o.before = o.after THEN {} ELSE {"arrays"})
    \cup (IF e.op = "construct" /\ o.raised # "" THEN {}
          ELSE (IF o.params = Given(e, o) THEN {} ELSE {"parameters"})
               \cup (IF o.kept THEN {} ELSE {"stopping-rule"})
               \cup (IF e.op = "fit" /\ o.raised = "" /\ ~o.self THEN {"not-itself"} ELSE {})
               \cup (IF e.op = "clone" /\ o.clone # given THEN {"clone-parameters"} ELSE {})
               \cup (IF e.op = "clone" /\ o.cloneused THEN {"clone-fitted"} ELSE {})
               \cup (IF e.op = "use" /\ ft = "yes" /\ o.raised = "" /\ o.finite
                        /\ old[e.m] # <<>> /\ ~Agree(o.out, old[e.m])
                     THEN {"model-changed"} ELSE {}))
Init == l = 1 /\ fitted = "no" /\ given = <<>> /\ seen = NoneSeen
Step == /\ l <= Len(Log)
        /\ LET r == Log[l]
               ft == IF r.i = 1 THEN "no" ELSE fitted
               old == IF r.i = 1 THEN NoneSeen ELSE seen
           IN /\ Report(l, Clauses(r.k, r.e, r.o, ft, old))
              /\ fitted' = FittedNext(r.k, ft, r.e)
              /\ given' = Given(r.e, r.o)
              /\ seen' = IF r.e.op = "fit" THEN NoneSeen
                         ELSE IF r.e.op = "use" /\ r.o.raised = "" /\ ft = "yes"
                         THEN [old EXCEPT ![r.e.m] = r.o.out] ELSE old
        /\ l' = l + 1
Spec == Init /\ [][Step]_<<l, fitted, given, seen>>
=============================================================================
