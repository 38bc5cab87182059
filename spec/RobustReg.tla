------------------------------ MODULE RobustReg ------------------------------
(***************************************************************************)
(* Robust regressions handed to the dedicated solvers; features and radius *)
(* are multiplied by 10^k.unit, by which coefficients are then divided.    *)
(***************************************************************************)
EXTENDS RobustRegOps, Choice, Json
CONSTANTS Classes, Rhos, Icpts, Dims, Sizes, Coords, Targets, Units
VARIABLES ph, k, s
vars == <<ph, k, s>>
Init == ph = "config" /\ k = <<>> /\ s = [d |-> 1, y |-> <<>>, x |-> <<>>]
Config == /\ ph = "config"
          /\ \E c \in Pick(Classes), r \in Pick(Rhos), ic \in Pick(Icpts), d \in Pick(Dims),
                u \in Pick(Units) :
               (* beyond the accuracy of the conic solver otherwise *)
               /\ (c = "log" => u <= 0)
               /\ k' = [cls |-> c, rho |-> r, icpt |-> ic, unit |-> u]
               /\ s' = [s EXCEPT !.d = d]
          /\ ph' = "data"
(* Both labels are seen. *)
Label(y) == IF s.y = <<>> THEN 1 ELSE IF Len(s.y) = 1 THEN -1 ELSE IF y > 0 THEN 1 ELSE -1
Data == /\ ph = "data" /\ Len(s.y) < MaxSet(Sizes)
        /\ \E x \in PickSeq(s.d, Coords), y \in Pick(Targets) :
             s' = [s EXCEPT !.x = Append(@, x),
                            !.y = Append(@, IF k.cls = "log" THEN Label(y) ELSE y)]
        /\ UNCHANGED <<ph, k>>
Finish == /\ ph = "data" /\ Len(s.y) \in Sizes /\ (k.cls = "log" => Len(s.y) >= 2)
          /\ PrintT("SCEN " \o ToJson([k |-> k, s |-> s]))
          /\ ph' = "done" /\ UNCHANGED <<k, s>>
Next == Config \/ Data \/ Finish
Spec == Init /\ [][Next]_vars

(* Laws of the operators, at the model w = (1, ..., 1), b = -1. *)
Toy == [w |-> [j \in 1..s.d |-> MICRO], b |-> -MICRO]
Bump(m, j, h) == [m EXCEPT !.w[j] = @ + h]
NormsAreNorms == ph = "done" => \A i \in 1..Len(s.x) :
    /\ Norm(Scale(MICRO, s.x[i])) <= MICRO * SumSeq([j \in 1..s.d |-> Abs(s.x[i][j])]) + 200
    /\ Norm(Scale(MICRO, s.x[i])) + 400 >= MICRO * Top(s.x[i])
(* The slope is a subgradient: the objective is above its tangent. *)
Convex == (ph = "done" /\ k.cls = "lr" /\ Top(Residuals(Toy, s.x, s.y)) >= MICRO) =>
    LET r == Residuals(Toy, s.x, s.y) IN
    \A j \in 1..s.d : \A h \in {-1, 1} :
       Rms(Residuals(Bump(Toy, j, h * MICRO), s.x, s.y))
         >= Rms(r) + h * 1000 * LinSlope(r, Column(s.x, j)) - 12000
=============================================================================
