----------------------------- MODULE SolverTrace -----------------------------
(* Judges recorded runs of the solving routine: [k, o], o = [raised, runs],*)
(* a run being [base, steps, warned, coef, dual, obj, after, is]; base is  *)
(* the number of steps taken by the previous runs.                         *)
EXTENDS SolverOps, TraceLib
VARIABLE l
Tol == 400
Mic(a, m) == (a * MICRO) \div m
CloseSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Close(s[i], t[i], Tol)
MicSeq(s, m) == [i \in 1..Len(s) |-> Mic(s[i], m)]

(* Steps record the parameters they were taken at as integers [wi, bi, li],*)
(* with num = FALSE once they are not numbers, and li = -1 for a           *)
(* multiplier that is not an integer (the initial guess).                  *)
StepClauses(k, s, p, robust) ==
    IF k.is /\ robust THEN {}
    ELSE (IF CloseSeq(s.gw, MicSeq(GradWM(k, p, robust), M(k)))
             /\ Close(s.gb, Mic(GradBM(k, p, robust), M(k)), Tol)
          THEN {} ELSE {IF robust THEN "robust-gradient" ELSE "warm-up-gradient"})
         \cup (IF robust /\ ~Close(s.gl, Mic(GradLM(k), M(k)), Tol)
               THEN {"multiplier-gradient"} ELSE {})

Here(s) == [w |-> s.wi, b |-> s.bi, lam |-> s.li]
RunClauses(k, r) ==
    LET total == Len(r.steps)
        done == total - WarmUp(k)
        end == At(k, r.base + total)
        before == Here(r.steps[total])
        rob == IsRobust(k)
        vals == {Mic(ValueM(k, [end EXCEPT !.lam = IF rob THEN end.lam ELSE 0], rob), M(k))}
                \cup (IF before.lam >= 0
                      THEN {Mic(ValueM(k, before, rob), M(k))} ELSE {})
    IN
    (IF done \in StepsAllowed(k) THEN {} ELSE {"number-of-steps"})
    \cup UNION {IF r.steps[j].num
                THEN StepClauses(k, r.steps[j], Here(r.steps[j]), RealRobust(k, j)) ELSE {}
                : j \in 1..total}
    \cup (IF SawNaN(k) /\ ~r.warned THEN {"no-warning"} ELSE {})
    \cup (IF ~MaySeeNaN(k) /\ r.warned THEN {"spurious-warning"} ELSE {})
    \cup (IF k.nanAt > 0 \/ k.infAt > 0 THEN {}
          ELSE (IF CloseSeq(r.coef, MicSeq(Append(end.w, end.b), 1)) THEN {} ELSE {"reported-parameters"})
               \cup (IF CloseSeq(r.dual, <<IF rob THEN end.lam * MICRO ELSE 0>>) THEN {}
                     ELSE {"reported-multiplier"})
               \cup (IF k.is \/ (before.lam < 0 /\ k.scheme = "post" /\ rob)
                        \/ \E v \in vals : Close(r.obj, v, Tol) THEN {}
                     ELSE {"reported-objective"})
               \cup (IF k.is \/ Close(r.after, Mic(ValueM(k, end, rob), M(k)), Tol) THEN {}
                     ELSE {"objective-afterwards"}))
    \cup (IF r.is = k.is THEN {} ELSE {"importance-sampling-flag"})
Clauses(k, o) ==
    IF o.raised # "" THEN {"raised"}
    ELSE UNION {RunClauses(k, o.runs[q]) : q \in 1..Len(o.runs)}
         \cup (IF Len(o.runs) = (IF k.twice THEN 2 ELSE 1) THEN {} ELSE {"runs"})
Init == l = 1
Step == /\ l <= Len(Log)
        /\ LET r == Log[l] IN Report(l, Clauses(r.k, r.o))
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
=============================================================================
