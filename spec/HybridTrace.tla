---------------------------- MODULE HybridTrace ----------------------------
(* Judges recorded runs of hybrid optimizers: [k, o], o = [refused, after, *)
(* ret, idle]: parameters of every group after every step, in micro;       *)
(* whether the closure's value came back; whether parameters without       *)
(* gradient stayed in place.                                               *)
EXTENDS HybridOps, TraceLib
VARIABLE l
Groups(k) == 1..Len(k.groups)
(* Coordinates of group i after step t. *)
RECURSIVE State(_, _, _)
State(k, i, t) == IF t = 0 THEN k.groups[i].init
                  ELSE TLCEval(Update(k.opt, k.groups[i], State(k, i, t - 1), k.grads[t][i]))
GroupClauses(k, o, t, i) ==
    LET g == k.groups[i]
        xs == TLCEval(State(k, i, t))
        got == o.after[t][i]
    IN IF Len(got) = g.n /\ \A j \in 1..g.n : Close(got[j], Value(g, xs, j, TRUE), 30)
       THEN {}
       ELSE {"group-" \o (IF g.marks = <<>> THEN "plain" ELSE g.marks[1])}
MustRefuse(k) == \E i \in Groups(k) : Conflict(k.groups[i])
MayRefuse(k) == \E i \in Groups(k) : Mixed(k.groups[i])
Clauses(k, o) ==
    IF MustRefuse(k) THEN (IF o.refused # "" THEN {} ELSE {"conflict-accepted"})
    ELSE IF o.refused # "" THEN (IF MayRefuse(k) THEN {} ELSE {"refused"})
    ELSE UNION {GroupClauses(k, o, t, i) : t \in 1..Len(k.grads), i \in Groups(k)}
         \cup (IF o.idle THEN {} ELSE {"moved-without-gradient"})
         \cup (IF o.ret THEN {} ELSE {"closure-value"})
Init == l = 1
Step == /\ l <= Len(Log)
        /\ LET r == Log[l] IN Report(l, Clauses(r.k, r.o))
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
=============================================================================
