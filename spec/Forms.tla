-------------------------------- MODULE Forms --------------------------------
(***************************************************************************)
(* Trainings and queries of estimators whose data come in various          *)
(* representations: fx, fy of the training data and fq of the queries, pf  *)
(* of the parameters.                                                      *)
(* The values are chosen among those all the representations hold.         *)
(***************************************************************************)
EXTENDS EstimConfig, FormsOps, Sequences, Json
CONSTANTS Params, Dens, Boxes, Types, Layouts, LabTypes, Dims, Sizes, Low, High, NQueries, NClasses
VARIABLES ph, k, s
vars == <<ph, k, s>>

FormsOf(types) == {f \in {[box |-> b, typ |-> t, lay |-> y] :
                          b \in Pick(Boxes), t \in Pick(types), y \in Pick(Layouts)} : Proper(f)}
Init == ph = "config" /\ k = <<>> /\ s = <<>>
Config == /\ ph = "config"
          /\ \E c \in Configs, d \in Pick(Dims) :
               /\ k' = c
               /\ s' = [d |-> d, fx |-> Plain, fy |-> Plain, fq |-> Plain, nc |-> 2, pf |-> "python",
                        xden |-> 1, yden |-> 1, qden |-> 1,
                        x |-> <<>>, y |-> <<>>, q |-> <<>>]
          /\ ph' = "forms"
Forms == /\ ph = "forms"
         /\ \E fx \in FormsOf(Types), fy \in FormsOf(LabTypes), fq \in FormsOf(Types),
               nc \in Pick(NClasses), pf \in Pick(Params), xn \in Pick(Dens), yn \in Pick(Dens),
               qn \in Pick(Dens) :
              s' = [s EXCEPT !.pf = pf,
                             !.xden = IF Real(fx.typ) THEN xn ELSE 1,
                             !.yden = IF Real(fy.typ) /\ k.cls # "log" THEN yn ELSE 1,
                             !.qden = IF Real(fq.typ) THEN qn ELSE 1,
                             !.fx = fx, !.fq = fq,
                             \* scikit-learn refuses classes held as Python objects
                             !.fy = IF k.cls = "log" /\ fy.typ = "obj"
                                    THEN [fy EXCEPT !.typ = "i8"] ELSE fy,
                             !.nc = IF Dedicated(k) \/ fy.typ = "b1" THEN 2 ELSE nc]
         /\ ph' = "data" /\ UNCHANGED k
Lowest0 == IF k.cls = "nv" THEN 0 ELSE Low    \* demands are not negative
Values(f) == Lowest(f.typ, Lowest0)..Highest(f.typ, High)
(* Classes alternate so that all appear; weights are positive. *)
Labs == IF k.cls = "log" THEN {Len(s.y) % s.nc}
        ELSE IF k.cls = "wb" THEN 1..Highest(s.fy.typ, High)
        ELSE Lowest(s.fy.typ, Low)..Highest(s.fy.typ, High)
Data == /\ ph = "data" /\ Len(s.y) < MaxSet(Sizes)
        /\ \E x \in PickSeq(s.d, Values(s.fx)), y \in Pick(Labs) :
             s' = [s EXCEPT !.x = Append(@, x), !.y = Append(@, y)]
        /\ UNCHANGED <<ph, k>>
Enough == ph = "data" /\ Len(s.y) \in Sizes /\ ph' = "queries" /\ UNCHANGED <<k, s>>
Query == /\ ph = "queries" /\ Len(s.q) < MaxSet(NQueries)
         /\ \E q \in PickSeq(s.d, Values(s.fq)) : s' = [s EXCEPT !.q = Append(@, q)]
         /\ UNCHANGED <<ph, k>>
Finish == /\ ph = "queries" /\ Len(s.q) \in NQueries
          /\ PrintT("SCEN " \o ToJson([k |-> k, s |-> s]))
          /\ ph' = "done" /\ UNCHANGED <<k, s>>
Next == Config \/ Forms \/ Data \/ Enough \/ Query \/ Finish
Spec == Init /\ [][Next]_vars

(* Every value can be stored exactly in the representation chosen for it. *)
Exact == ph \in {"queries", "done"} =>
    /\ \A i \in 1..Len(s.x) : \A j \in 1..s.d : Holds(s.fx.typ, s.x[i][j])
    /\ \A i \in 1..Len(s.y) : Holds(s.fy.typ, s.y[i])
    /\ s.xden > 1 => Real(s.fx.typ)
    /\ s.yden > 1 => Real(s.fy.typ)
    /\ s.qden > 1 => Real(s.fq.typ)
    /\ \A i \in 1..Len(s.q) : \A j \in 1..s.d : Holds(s.fq.typ, s.q[i][j])
=============================================================================
