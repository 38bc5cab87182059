------------------------------ MODULE StopRule ------------------------------
(***************************************************************************)
(* Runs watched by one stopping rule.  At each iteration the environment   *)
(* moves the parameters and the gradients in place, then asks the rule;    *)
(* "reset" starts another run with the same rule.                          *)
(***************************************************************************)
EXTENDS StopRuleOps, Choice, Json
CONSTANTS Orders, Tols, Mons, Modes, Metrics, Budgets, Forms, Coords, Lams, Calls, Runs, Scales
VARIABLES ph, c, h, obs, runs
vars == <<ph, c, h, obs, runs>>

Init == ph = "rule" /\ c = <<>> /\ h = <<>> /\ obs = <<>> /\ runs = 1
PickRule ==
    /\ ph = "rule"
    /\ \E o \in Pick(Orders), tt \in Pick(Tols), tl \in Pick(Tols), mon \in Pick(Mons),
          mode \in Modes, met \in Metrics, b \in Budgets, f \in Forms, sc \in Pick(Scales) :
         c' = [order |-> o, tolt |-> tt, toll |-> tl, mon |-> mon, mode |-> mode,
               metric |-> met, budget |-> b, form |-> f, scale |-> sc]
    /\ ph' = "run" /\ UNCHANGED <<h, obs, runs>>
Ask ==
    /\ ph = "run" /\ Len(h) < Calls
    /\ \E t \in PickSeq(5, Coords), gt \in PickSeq(5, Coords),
          lam \in Pick(Lams), gl \in Pick(Lams), keep \in {TRUE, FALSE} :
         LET prev == IF keep /\ obs # <<>> THEN obs[Len(obs)].t ELSE t
             o == [t |-> prev, lam |-> lam, gt |-> gt, gl |-> gl]
         IN /\ (keep => obs # <<>>)
            /\ obs' = Append(obs, o)
            /\ h' = Append(h, [op |-> "ask", it |-> Len(obs), o |-> o])
    /\ UNCHANGED <<ph, c, runs>>
Restart ==
    /\ ph = "run" /\ runs < Runs /\ obs # <<>> /\ Len(h) < Calls
    /\ h' = Append(h, [op |-> "reset", it |-> 0, o |-> obs[1]])
    /\ obs' = <<>> /\ runs' = runs + 1 /\ UNCHANGED <<ph, c>>
Finish ==
    /\ ph = "run" /\ Len(h) = Calls
    /\ PrintT("SCEN " \o ToJson([c |-> c, h |-> h]))
    /\ ph' = "done" /\ UNCHANGED <<c, h, obs, runs>>
Next == PickRule \/ Ask \/ Restart \/ Finish
Spec == Init /\ [][Next]_vars

Started == ph # "rule" /\ obs # <<>>
(* Never on convergence at the first observation(s). *)
Patient == Started /\ Len(obs) <= FirstOf(c.metric) /\ Len(obs) - 1 < c.budget
           => ~Stop(c, obs, Len(obs) - 1)
NeverWithoutTolerance ==
    Started /\ c.tolt <= 0 /\ c.toll <= 0 /\ Len(obs) - 1 < c.budget
       => ~Stop(c, obs, Len(obs) - 1)
BudgetBinds == Started => Stop(c, obs, c.budget)
(* "both" is harder than each, "either" easier. *)
MonitorOrder ==
    Started => LET s(m) == Stop([c EXCEPT !.mon = m], obs, 0) IN
       /\ s("both") => s("theta") /\ s("lambda")
       /\ s("theta") \/ s("lambda") => s("one")
=============================================================================
