---------------------------- MODULE ClassifTrace ----------------------------
(* Judges recorded trainings of the classifier: [k, s, o], o = [raised,    *)
(* runs], one run per alphabet: [classes, m, p, lo, pred, alone, wild]:    *)
(* classes and labels as ranks in the alphabet, fitted model (not given if *)
(* wild), probabilities and log-odds of every query against the first      *)
(* class (micro), whether queries get the same answer alone.               *)
EXTENDS ClassifOps, TraceLib
VARIABLE l
Tol == 200
NaN == 999999999
Clear == 9 * MICRO      \* log-odds beyond which probabilities saturate
QueryClauses(s, r, i) ==
    LET q == s.q[i]
        p == r.p[i]
    IN (IF Len(p) = s.classes /\ \A c \in 1..s.classes : p[c] >= 0 /\ p[c] <= MICRO
           /\ Close(SumSeq(p), MICRO, 4)
        THEN {} ELSE {"not-a-probability"})
       \cup (IF Len(p) # s.classes \/ r.wild
             \/ \A c \in 1..s.classes :
                  LET e == LogOdds(r.m, c, q, s.unit)
                  IN  IF r.lo[i][c] = NaN THEN TRUE
                      ELSE IF Abs(e) > Clear \/ Abs(r.lo[i][c]) > Clear
                      THEN Abs(e) > Clear - MICRO /\ Sgn(e) = Sgn(r.lo[i][c])
                      ELSE Close(r.lo[i][c], e, Tol)
             THEN {} ELSE {"log-odds"})
       \cup (IF r.pred[i] \in 1..s.classes
                /\ (IF r.wild THEN p[r.pred[i]] >= MaxSeq(p) - 2 ELSE r.pred[i] \in Best(r.m, q, s.unit, 20)) THEN {} ELSE {"not-the-most-probable"})
RunClauses(k, s, r) ==
    (IF r.classes = [c \in 1..s.classes |-> c] THEN {} ELSE {"classes"})
    \cup (IF Len(r.pred) = Len(s.q) /\ Len(r.p) = Len(s.q)
          THEN UNION {QueryClauses(s, r, i) : i \in 1..Len(s.q)} ELSE {"one-answer-per-row"})
    \cup (IF k.icpt \/ \A c \in 1..s.classes : r.m.b[c] = 0 THEN {} ELSE {"intercept-not-fitted"})
    \cup (IF r.alone THEN {} ELSE {"depends-on-the-batch"})
Clauses(k, s, o) ==
    IF o.raised # "" THEN {"raised"}
    ELSE UNION {RunClauses(k, s, o.runs[a]) : a \in 1..Len(o.runs)}
         \cup (IF o.runs[1].pred = o.runs[2].pred
                  /\ \A i \in 1..Len(s.q) : \A c \in 1..s.classes :
                       Close(o.runs[1].p[i][c], o.runs[2].p[i][c], 20)
               THEN {} ELSE {"depends-on-the-names"})
Init == l = 1
Step == /\ l <= Len(Log)
        /\ LET r == Log[l] IN Report(l, Clauses(r.k, r.s, r.o))
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
=============================================================================
