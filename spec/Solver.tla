------------------------------- MODULE Solver -------------------------------
(***************************************************************************)
(* Runs of the solving routine: the problem, the budget and the script of  *)
(* the optimizer and of the stopping rule are chosen, then the run is      *)
(* stepped until it ends.                                                  *)
(***************************************************************************)
EXTENDS SolverOps, Choice, Json
CONSTANTS Schemes, Labs, Pows, Rs, IntBudgets, PairBudgets, ISs, Metrics, StopAts, NanAts, InfAts,
          Sizes, Dims, Coords, Offs, Labels, Weights, Lams, Cycle, Twice
VARIABLES ph, k, n, robust
vars == <<ph, k, n, robust>>

Init == ph = "budget" /\ k = <<>> /\ n = 0 /\ robust = 0
PickBudget ==
    /\ ph = "budget"
    /\ \E sc \in Schemes, lab \in Labs, p \in Pows, r \in Rs, imp \in ISs, met \in Metrics,
          st \in StopAts, na \in NanAts, inf \in InfAts, d \in Dims, tw \in Twice :
       \E b \in {[form |-> "int", n |-> <<t>>] : t \in IntBudgets}
                \cup {[form |-> "pair", n |-> t] : t \in PairBudgets} :
         k' = [scheme |-> sc, lab |-> lab, pow |-> p, r |-> r, is |-> imp, metric |-> met,
               stopAt |-> st, nanAt |-> na, infAt |-> inf, d |-> d, form |-> b.form, n |-> b.n,
               twice |-> tw,
               x |-> <<>>, y |-> <<>>, off |-> <<>>, ws |-> <<>>, bs |-> <<>>, ls |-> <<>>]
    /\ ph' = "data" /\ UNCHANGED <<n, robust>>
Grow == \* one more data point
    /\ ph = "data"
    /\ \E x \in Pick([1..k.d -> Coords]), o \in Pick([1..k.d -> Offs]), y \in Pick(Labels) :
         k' = [k EXCEPT !.x = Append(@, x), !.off = Append(@, o),
                        !.y = Append(@, IF k.lab THEN y ELSE 0)]
    /\ ph' \in {q \in {"data", "script"} :
                   IF q = "script" THEN Len(k'.x) \in Sizes ELSE Len(k'.x) < MaxSet(Sizes)}
    /\ UNCHANGED <<n, robust>>
Write == \* one more place of the optimizer's script
    /\ ph = "script" /\ Len(k.ws) < Cycle
    /\ \E w \in Pick([1..k.d -> Weights]), b \in Pick(Weights), l \in Pick(Lams) :
         k' = [k EXCEPT !.ws = Append(@, w), !.bs = Append(@, b), !.ls = Append(@, l)]
    /\ UNCHANGED <<ph, n, robust>>
Start == ph = "script" /\ Len(k.ws) = Cycle /\ ph' = "warm" /\ UNCHANGED <<k, n, robust>>
WarmStep == ph = "warm" /\ n < WarmUp(k) /\ n' = n + 1 /\ UNCHANGED <<ph, k, robust>>
Guess == ph = "warm" /\ n = WarmUp(k) /\ ph' = "robust" /\ UNCHANGED <<k, n, robust>>
RobustStep ==
    /\ ph = "robust" /\ robust < Robust(k)
    /\ n' = n + 1 /\ robust' = robust + 1
    /\ ph' \in (IF robust' = k.stopAt THEN {"end"}
                ELSE IF k.nanAt > 0 /\ robust' > k.nanAt THEN {"end"}
                ELSE IF robust' = k.nanAt THEN {"end", "robust"} ELSE {"robust"})
    /\ UNCHANGED k
Exhausted == ph = "robust" /\ robust = Robust(k) /\ ph' = "end" /\ UNCHANGED <<k, n, robust>>
Finish ==
    /\ ph = "end"
    /\ PrintT("SCEN " \o ToJson([k |-> k]))
    /\ ph' = "done" /\ UNCHANGED <<k, n, robust>>
Next == PickBudget \/ Grow \/ Write \/ Start \/ WarmStep \/ Guess \/ RobustStep \/ Exhausted
        \/ Finish
Spec == Init /\ [][Next]_vars

(* The closed form used to judge traces is what the machine does. *)
EndsAsAllowed == ph \in {"end", "done"} =>
    /\ robust \in StepsAllowed(k)
    /\ n = WarmUp(k) + robust
(* A null noise makes both phases agree; the robust value is an upper      *)
(* bound of the risk at the same samples when the multiplier is null.      *)
NoNoise == (ph = "done" /\ \A i \in 1..M(k) : k.off[i] = Zeros(k.d)) =>
    \A i \in 1..Cycle : GradWM(k, At(k, i), TRUE) = GradWM(k, At(k, i), FALSE)
=============================================================================
