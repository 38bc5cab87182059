---------------------------- MODULE RobustSupport ----------------------------
(***************************************************************************)
(* Robust portfolio problems with known bounds on the returns, handed to   *)
(* the dedicated solver.                                                   *)
(***************************************************************************)
EXTENDS RobustSupportOps, Choice, Json
CONSTANTS Rhos, Etas, Alphas, Typs, Dims, Sizes, Returns, Lows, Ups, Scales, Orders
VARIABLES ph, k, xs
vars == <<ph, k, xs>>
Init == ph = "config" /\ k = <<>> /\ xs = <<>>
Config == /\ ph = "config"
          /\ \E r \in Pick(Rhos), e \in Pick(Etas), a \in Pick(Alphas), t \in Pick(Typs),
                d \in Pick(Dims) :
             \E low \in PickSeq(d, Lows), up \in PickSeq(d, Ups),
                s \in Pick(Scales), o \in Pick(Orders) :
               /\ (t = 2 => d = 1)
               /\ \E c \in 1..d : low[c] # NONE \/ up[c] # NONE
               /\ k' = [rho |-> r, eta |-> e, alpha |-> a, typ |-> t, d |-> d,
                        low |-> low, up |-> up, scale |-> s, order |-> o]
          /\ ph' = "data" /\ UNCHANGED xs
(* Samples lie within the bounds. *)
Inside(v, c) == LET l == IF k.low[c] = NONE THEN v ELSE Max2(v, k.low[c])
                IN  IF k.up[c] = NONE THEN l ELSE Min2(l, k.up[c])
Data == /\ ph = "data" /\ Len(xs) < MaxSet(Sizes)
        /\ \E x \in PickSeq(k.d, Returns) :
             xs' = Append(xs, [c \in 1..k.d |-> Inside(x[c], c)])
        /\ UNCHANGED <<ph, k>>
Finish == /\ ph = "data" /\ Len(xs) \in Sizes
          /\ PrintT("SCEN " \o ToJson([k |-> k, x |-> xs]))
          /\ ph' = "done" /\ UNCHANGED <<k, xs>>
Next == Config \/ Data \/ Finish
Spec == Init /\ [][Next]_vars

Even == [i \in 1..k.d |-> MICRO \div k.d]
NoBound(kk) == [kk EXCEPT !.low = [c \in 1..kk.d |-> NONE]]
Rough == 100 + RiskRatio(k, 30)
(* Without bounds this is the value of RobustFolioOps; bounds help; the    *)
(* worst case is worse than the sample average.                            *)
SameWithoutBounds == ph = "done" => \A t \in Thresholds(xs, Even) :
    Close(MinSet({SupportValue(NoBound(k), xs, Even, t, l) : l \in Multipliers(k, Even)}),
          Value(k, xs, Even, t), Rough)
BoundsHelp == ph = "done" => \A t \in Thresholds(xs, Even) : \A l \in Multipliers(k, Even) :
    SupportValue(k, xs, Even, t, l) <= SupportValue(NoBound(k), xs, Even, t, l) + Rough
WorseThanAverage == ph = "done" => \A t \in Thresholds(xs, Even) : \A l \in Multipliers(k, Even) :
    SupportValue(k, xs, Even, t, l) >= Value([k EXCEPT !.rho = <<0, 1>>], xs, Even, t) - Rough
(* Nothing can be gained when every sample is at its lowest. *)
AtTheBottom == (ph = "done" /\ \A c \in 1..k.d : k.low[c] # NONE) =>
    LET bottom == <<k.low>> IN \A t \in Thresholds(bottom, Even) :
        SupportValue(k, bottom, Even, t, 0) = Value([k EXCEPT !.rho = <<0, 1>>], bottom, Even, t)
=============================================================================
