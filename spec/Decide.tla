-------------------------------- MODULE Decide --------------------------------
(***************************************************************************)
(* Trainings of decision problems, and data sets on which the decision is  *)
(* evaluated.  y is <<>> for evaluations without weights.  Points are in   *)
(* 1/den, weights in 1/wden.                                               *)
(***************************************************************************)
EXTENDS EstimConfig, DecideOps, Json
CONSTANTS Dims, Sizes, Demands, Coords, Weights, EvalWeights, EvalSizes, NEvals, Dens
VARIABLES ph, k, s
vars == <<ph, k, s>>
Init == ph = "config" /\ k = <<>> /\ s = [d |-> 1, den |-> 1, wden |-> 1, x |-> <<>>, y |-> <<>>, sets |-> <<>>]
Points(cls) == IF cls = "nv" THEN Demands ELSE Coords
Config == /\ ph = "config"
          /\ \E c \in Configs, d \in Pick(Dims), n \in Pick(Dens), wn \in Pick(Dens) :
               /\ k' = c
               /\ s' = [s EXCEPT !.d = IF c.cls = "nv" THEN 1 ELSE d, !.den = n, !.wden = wn]
          /\ ph' = "data"
Data == /\ ph = "data" /\ Len(s.x) < MaxSet(Sizes)
        /\ \E x \in PickSeq(s.d, Points(k.cls)), y \in Pick(Weights) :
             s' = [s EXCEPT !.x = Append(@, x), !.y = Append(@, y)]
        /\ UNCHANGED <<ph, k>>
Enough == ph = "data" /\ Len(s.x) \in Sizes /\ ph' = "evals" /\ UNCHANGED <<k, s>>
(* A set begins with one point; points are added to the last set. *)
Full == IF s.sets = <<>> THEN TRUE ELSE Len(s.sets[Len(s.sets)].x) \in EvalSizes
NewSet == /\ ph = "evals" /\ Len(s.sets) < MaxSet(NEvals) /\ Full
          /\ \E x \in PickSeq(s.d, Points(k.cls)), y \in Pick(EvalWeights), b \in Pick(BOOLEAN) :
               s' = [s EXCEPT !.sets = Append(@, [x |-> <<x>>, y |-> <<y>>,
                                                  weighted |-> b /\ k.cls = "wb"])]
          /\ UNCHANGED <<ph, k>>
Grow == /\ ph = "evals" /\ s.sets # <<>> /\ Len(s.sets[Len(s.sets)].x) < MaxSet(EvalSizes)
        /\ \E x \in PickSeq(s.d, Points(k.cls)), y \in Pick(EvalWeights) :
             s' = [s EXCEPT !.sets[Len(s.sets)].x = Append(@, x),
                            !.sets[Len(s.sets)].y = Append(@, y)]
        /\ UNCHANGED <<ph, k>>
Finish == /\ ph = "evals" /\ Len(s.sets) \in NEvals /\ Full
          /\ PrintT("SCEN " \o ToJson([k |-> k, s |-> s]))
          /\ ph' = "done" /\ UNCHANGED <<k, s>>
Next == Config \/ Data \/ Enough \/ NewSet \/ Grow \/ Finish
Spec == Init /\ [][Next]_vars

(* Laws, at the decision of equal shares. *)
Even == [w |-> [i \in 1..s.d |-> MICRO \div s.d], tau |-> -MICRO \div 2]
Ones(n) == [i \in 1..n |-> s.wden]
RiskIsMonotone == (ph = "done" /\ k.cls = "pf") => \A i \in 1..Len(s.x) :
    /\ Portfolio(k, s, Even.w, Even.tau, s.x[i]) * s.den
         >= -Dot(s.x[i], Even.w) + Frac(-Dot(s.x[i], Even.w), k.eta) - (4 + 2 * k.eta[1]) * s.den
    /\ Portfolio(k, s, Even.w, Even.tau, s.x[i])
         >= Portfolio([k EXCEPT !.alpha = <<1, 1>>], s, Even.w, Even.tau, s.x[i]) - 2
DistanceIsPositive == (ph = "done" /\ k.cls = "wb") => \A i \in 1..Len(s.x) :
    Distance(s, s.x[i], s.x[i]) >= 0 /\ Distance(s, Scale(MICRO \div s.den, s.x[i]), s.x[i]) = 0
AverageBetween == ph = "done" =>
    LET v == {Loss(k, s, Even, s.x[i], s.wden) : i \in 1..Len(s.x)}
        a == Average(k, s, Even, s.x, Ones(Len(s.x)))
    IN  a >= MinSet(v) - 1 /\ a <= MaxSet(v) + 1
=============================================================================
