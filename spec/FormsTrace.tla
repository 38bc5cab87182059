----------------------------- MODULE FormsTrace -----------------------------
(* Judges recorded trainings: [k, s, o], o = [raised, now, ref, jolt],     *)
(* now: the model learnt from the data in the representations of the       *)
(* scenario and its answers to the queries, ref: the same from plain       *)
(* arrays of doubles,                                                      *)
(* jolt: ref with data moved by rounding errors, which unstable trainings  *)
(* amplify.                                                                *)
EXTENDS Num, FormsOps, TraceLib
VARIABLE l
Apart(a, b) == Min2(Abs((a \div 2) - (b \div 2)), 50000000)
(* s, t: observed and expected numbers; js: expected ones after each jolt. *)
Slack(t, js, i) == 500 + Abs(t[i]) \div 2000
                   + 16 * MaxSet({0} \cup {Apart(t[i], js[n][i]) : n \in 1..Len(js)})
Agree(s, t, js) == Len(s) = Len(t) /\ \A i \in 1..Len(s) :
                     Apart(s[i], t[i]) <= Slack(t, js, i)
(* Predicted classes are compared where one is clearly the most probable. *)
Clear(s, p, i) == LET n == s.nc
                      at(j) == p[(i - 1) * n + j]
                  IN \E j \in 1..n : \A m \in 1..n : m = j \/ at(j) > at(m) + 2000
SameLabels(s, now, ref, js) ==
    /\ Len(now.labels) = Len(ref.labels)
    /\ Len(ref.probe) = s.nc * Len(ref.labels)
    /\ \A i \in 1..Len(ref.labels) :
         (Clear(s, ref.probe, i) /\ \A n \in 1..Len(js) : Clear(s, js[n].probe, i)) => now.labels[i] = ref.labels[i]
Clauses(k, s, o) ==
    IF o.raised # o.ref.raised THEN {"raised"}
    ELSE IF o.raised # "" THEN {}
    ELSE (IF Agree(o.now.model, o.ref.model, [n \in 1..Len(o.jolt) |-> o.jolt[n].model])
          THEN {} ELSE {"model"})
         \cup (IF Agree(o.now.dual, o.ref.dual, [n \in 1..Len(o.jolt) |-> o.jolt[n].dual])
                 THEN {} ELSE {"multiplier"})
         \cup (IF Agree(o.now.probe, o.ref.probe, [n \in 1..Len(o.jolt) |-> o.jolt[n].probe])
                 THEN {} ELSE {"answers"})
         \cup (IF k.cls # "log" \/ SameLabels(s, o.now, o.ref, o.jolt) THEN {} ELSE {"classes"})
Init == l = 1
Step == /\ l <= Len(Log)
        /\ LET r == Log[l] IN Report(l, Clauses(r.k, r.s, r.o))
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
=============================================================================
