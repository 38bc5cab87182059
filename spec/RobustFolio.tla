----------------------------- MODULE RobustFolio -----------------------------
(***************************************************************************)
(* Robust portfolio problems handed to the dedicated solver; returns and   *)
(* radius are multiplied by 10^k.unit, and so are threshold and optimum.   *)
(***************************************************************************)
EXTENDS RobustFolioOps, Choice, Json
CONSTANTS Rhos, Etas, Alphas, Typs, Dims, Sizes, Returns, Units
VARIABLES ph, k, xs
vars == <<ph, k, xs>>
Init == ph = "config" /\ k = <<>> /\ xs = <<>>
Config == /\ ph = "config"
          /\ \E r \in Pick(Rhos), e \in Pick(Etas), a \in Pick(Alphas), t \in Pick(Typs),
                d \in Pick(Dims), u \in Pick(Units) :
               k' = [rho |-> r, eta |-> e, alpha |-> a, typ |-> t, d |-> d, unit |-> u]
          /\ ph' = "data" /\ UNCHANGED xs
Data == /\ ph = "data" /\ Len(xs) < MaxSet(Sizes)
        /\ \E x \in PickSeq(k.d, Returns) : xs' = Append(xs, x)
        /\ UNCHANGED <<ph, k>>
Finish == /\ ph = "data" /\ Len(xs) \in Sizes
          /\ PrintT("SCEN " \o ToJson([k |-> k, x |-> xs]))
          /\ ph' = "done" /\ UNCHANGED <<k, xs>>
Next == Config \/ Data \/ Finish
Spec == Init /\ [][Next]_vars

Even == [i \in 1..k.d |-> MICRO \div k.d]
(* The best threshold is among the opposite returns; the two pieces are    *)
(* the mean-risk loss.                                                     *)
ThresholdIsAReturn == ph = "done" => \A j \in -4..4 :
    Value(k, xs, Even, j * MICRO) >= BestValue(k, xs, Even) - 50 - RiskRatio(k, 5)
PiecesAreTheLoss == ph = "done" => \A i \in 1..Len(xs), j \in -2..2 :
    LET r == Dot(xs[i], Even)
        tau == j * MICRO
    IN  Close(Max2(Piece1(k, tau, r), Piece2(k, tau, r)),
              -r + Frac(tau, k.eta) + RiskRatio(k, Max2(0, -r - tau)), 10 + RiskRatio(k, 5))
=============================================================================
