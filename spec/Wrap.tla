-------------------------------- MODULE Wrap --------------------------------
(* Evaluations of the user's loss through the library in every layout.     *)
EXTENDS WrapOps, Choice, Json
CONSTANTS Kinds, Ks, Labs, Dims, Trs, L2s, Reduces, Layouts, Ms, Ns, Qs, Weights, Coords, LabCoords,
          Floats, Announced
VARIABLES ph, c, s
vars == <<ph, c, s>>

Init == ph = "loss" /\ c = <<>> /\ s = <<>>

PickLoss ==
    /\ ph = "loss"
    /\ \E kind \in Kinds, k \in Pick(Ks), l \in Pick(Labs), d \in Pick(Dims), tr \in Pick(Trs), l2 \in L2s,
          red \in Reduces, f32 \in Floats, ann \in Announced :
         /\ kind = "function" => ann = "none"
         /\ (kind = "function" /\ l2 > 0) => tr # 0     \* something to penalise
         /\ c' = [kind |-> kind, k |-> k, l |-> l, d |-> d, tr |-> tr, l2 |-> l2, red |-> red,
                  f32 |-> f32, announced |-> ann]
    /\ ph' = "params" /\ UNCHANGED s
PickParams ==
    /\ ph = "params"
    /\ \E w \in PickSeq(c.d, Weights), b \in Pick(Weights), v \in Pick(Weights \ {0}) :
         c' = c @@ [w |-> w, b |-> b, v |-> v]
    /\ ph' = "layout" /\ UNCHANGED s
PickLayout ==
    /\ ph = "layout"
    /\ \E lay \in Layouts :
       \E m \in IF lay = "point" THEN {1} ELSE Ms,
          n \in IF lay \in {"stack", "stacks"} THEN Ns ELSE {1},
          q \in IF lay = "stacks" THEN Qs ELSE {1} :
         s' = [lay |-> lay, m |-> m, n |-> n, q |-> q]
    /\ ph' = "points" /\ UNCHANGED c
PickPoints ==
    /\ ph = "points"
    /\ \E x \in PickRows(Count(s), c.d, Coords),
          y \in PickRows(Count(s), c.l, LabCoords) :
         s' = s @@ [x |-> x, y |-> y]
    /\ ph' = "last" /\ UNCHANGED c
Finish ==
    /\ ph = "last"
    /\ PrintT("SCEN " \o ToJson([c |-> c, s |-> s]))
    /\ ph' = "done" /\ UNCHANGED <<c, s>>
Next == PickLoss \/ PickParams \/ PickLayout \/ PickPoints \/ Finish
Spec == Init /\ [][Next]_vars

(* The l2 term is the same for all the samples, and never negative. *)
PenaltyUniform == ph = "done" =>
    \A i \in 1..Count(s) :
      /\ Penalty16(c) >= 0
      /\ One(c, s.x[i], s.y[i]) - One([c EXCEPT !.l2 = 0], s.x[i], s.y[i])
           = (MICRO \div 16) * Penalty16(c)
=============================================================================
