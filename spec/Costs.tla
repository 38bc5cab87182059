------------------------------- MODULE Costs -------------------------------
(***************************************************************************)
(* Evaluations of transport costs on stacks of pairs: m points, n samples  *)
(* of each.  Laws of the costs are invariants.  Costs are homogeneous: the *)
(* points are given in some unit, and the values are brought back.         *)
(***************************************************************************)
EXTENDS CostOps, Choice, Json

CONSTANTS Ids, Typs, Pows, Kappas, Dims, LabDims, Coords, LabCoords, Ms, Ns, Layouts,
          Units,    \* powers of ten: the coordinates are in that unit
          Floats

VARIABLES ph, k, s
vars == <<ph, k, s>>

Init == ph = "cost" /\ k = <<>> /\ s = <<>>

PickCost ==
    /\ ph = "cost"
    /\ \E id \in Ids, t \in Typs, p \in Pows, q \in Kappas :
         /\ id = "NC" => q = <<1, 1>>
         /\ k' = [id |-> id, typ |-> t, pow |-> p, kn |-> q[1], kd |-> q[2]]
    /\ ph' = "layout" /\ UNCHANGED s

PickLayout ==
    /\ ph = "layout"
    /\ \E lay \in Layouts, d \in Dims, l \in LabDims, lab \in {TRUE, FALSE} :
       \E unit \in Units, f32 \in Floats :
       \E m \in IF lay = "flat" THEN {1} ELSE Ms, n \in IF lay = "stack" THEN Ns ELSE {1} :
         /\ k.id = "NLC" => lab
         /\ (f32 /\ Extreme(k)) => unit = 0      \* simple precision overflows
         /\ s' = [lay |-> lay, d |-> d, l |-> IF lab THEN l ELSE 0, m |-> m, n |-> n,
                 unit |-> unit, f32 |-> f32]
    /\ ph' = "points" /\ UNCHANGED k

Pts(d, C) == [1..d -> C]

PickPoints ==
    /\ ph = "points"
    /\ \E x \in PickSeq(s.m, Pts(s.d, Coords)),
          y \in PickSeq(s.m, Pts(s.l, LabCoords)) :
         s' = s @@ [x |-> x, y |-> y, zx |-> <<>>, zy |-> <<>>, rx |-> <<>>, ry |-> <<>>]
    /\ ph' = "samples" /\ UNCHANGED k

(* Samples come one at a time, row by row. *)
PickSample ==
    /\ ph = "samples" /\ Len(s.zx) < s.n
    /\ LET i == Len(s.rx) + 1 IN
       \E b \in Pick(Pts(s.l, LabCoords)) :
       \E a \in Pick({u \in Pts(s.d, Coords) :
                         Refused(k) \/ CostKnown(k, Sub(s.x[i], u), Sub(s.y[i], b))}) :
         LET rx == Append(s.rx, a)
             ry == Append(s.ry, b)
         IN  IF i = s.m
             THEN s' = [s EXCEPT !.rx = <<>>, !.ry = <<>>,
                                 !.zx = Append(@, rx), !.zy = Append(@, ry)]
             ELSE s' = [s EXCEPT !.rx = rx, !.ry = ry]
    /\ UNCHANGED <<ph, k>>

AllSampled ==
    /\ ph = "samples" /\ Len(s.zx) = s.n
    /\ ph' = "last" /\ UNCHANGED <<k, s>>

Finish ==
    /\ ph = "last"
    /\ PrintT("SCEN " \o ToJson([k |-> k, s |-> s]))
    /\ ph' = "done" /\ UNCHANGED <<k, s>>

Next == PickCost \/ PickLayout \/ PickPoints \/ PickSample \/ AllSampled \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Dx(j, i) == Sub(s.x[i], s.zx[j][i])
Dy(j, i) == Sub(s.y[i], s.zy[j][i])
Law(P(_, _)) ==
    (ph = "done" /\ ~Refused(k)) =>
       \A j \in 1..s.n : \A i \in 1..s.m : CostExact(k, Dx(j, i), Dy(j, i)) => P(j, i)

NonNegative == Law(LAMBDA j, i : Cost(k, Dx(j, i), Dy(j, i)) >= 0)
Symmetric == Law(LAMBDA j, i :
    Cost(k, Dx(j, i), Dy(j, i)) = Cost(k, Scale(-1, Dx(j, i)), Scale(-1, Dy(j, i))))
ZeroOnIdentical == Law(LAMBDA j, i :
    (SumSq(Dx(j, i)) = 0 /\ SumSq(Dy(j, i)) = 0) => Cost(k, Dx(j, i), Dy(j, i)) = 0)
(* A finite penalty gives a cost between the data cost and the label cost. *)
Between == Law(LAMBDA j, i :
    (k.id = "NLC" /\ k.kn > 0 /\ ~Extreme(k)) =>
      LET a == Cost([k EXCEPT !.kn = 0], Dx(j, i), Dy(j, i))
          b == Cost([k EXCEPT !.kn = -1], Dx(j, i), Dy(j, i))
          c == Cost(k, Dx(j, i), Dy(j, i))
      IN  Min2(a, b) <= c + 1 /\ c <= Max2(a, b) + 1)
=============================================================================
