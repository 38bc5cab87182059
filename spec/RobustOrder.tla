----------------------------- MODULE RobustOrder -----------------------------
(***************************************************************************)
(* Robust newsvendor problems handed to the dedicated solver; demands and  *)
(* radius are multiplied by 10^k.unit, and so is the order.                *)
(***************************************************************************)
EXTENDS RobustOrderOps, Choice, Json
CONSTANTS Rhos, KUs, Sizes, Demands, Units
VARIABLES ph, k, xs
vars == <<ph, k, xs>>
Init == ph = "config" /\ k = <<>> /\ xs = <<>>
Config == /\ ph = "config"
          /\ \E r \in Pick(Rhos), ku \in Pick(KUs), u \in Pick(Units) :
               k' = [rho |-> r, ku |-> ku, unit |-> u]
          /\ ph' = "data" /\ UNCHANGED xs
Data == /\ ph = "data" /\ Len(xs) < MaxSet(Sizes)
        /\ \E x \in Pick(Demands) : xs' = Append(xs, x)
        /\ UNCHANGED <<ph, k>>
Finish == /\ ph = "data" /\ Len(xs) \in Sizes
          /\ PrintT("SCEN " \o ToJson([k |-> k, x |-> xs]))
          /\ ph' = "done" /\ UNCHANGED <<k, xs>>
Next == Config \/ Data \/ Finish
Spec == Init /\ [][Next]_vars

S == Sorted(xs)
Ms(kk) == Moved(S, Budget(kk, Len(xs)))
Grid == {i * HALF : i \in 0..MaxSet(Demands)}
(* The optimum is at a sample or at zero; a larger ball costs more; when   *)
(* the ball is a point, this is the sample average problem.                *)
AtASample == ph = "done" =>
    \A t \in Grid : NValue(k, S, Ms(k), t) >= BestNValue(k, S, Ms(k)) - 8
Wider(kk) == [kk EXCEPT !.rho[1] = @ + 1]
Monotone == ph = "done" => \A t \in Grid :
    NValue(Wider(k), S, Ms(Wider(k)), t) >= NValue(k, S, Ms(k), t) - 8
SampleAverage == (ph = "done" /\ k.rho[1] = 0) => \A t \in Grid :
    NValue(k, S, Ms(k), t)
      = SumSeq([i \in 1..Len(xs) |-> k.ku[1] * t - k.ku[2] * Min2(t, xs[i] * HALF)])
=============================================================================
