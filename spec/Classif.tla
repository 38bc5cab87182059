------------------------------- MODULE Classif -------------------------------
(***************************************************************************)
(* Trainings of the logistic classifier, on the same data written with two *)
(* alphabets, and batches of queries (multiples of the fraction s.unit).   *)
(***************************************************************************)
EXTENDS EstimConfig, ClassifOps, Json
CONSTANTS NClasses, Alphabets, Dims, Sizes, Coords, NQueries, Units
VARIABLES ph, k, s
vars == <<ph, k, s>>
Init == ph = "config" /\ k = <<>> /\ s = [y |-> <<>>, x |-> <<>>, q |-> <<>>]
Config ==
    /\ ph = "config"
    /\ \E c \in Configs, n \in Pick(NClasses), a \in Pick(Alphabets), b \in Pick(Alphabets),
          d \in Pick(Dims), u \in Pick(Units) :
         /\ (c.solver = "dedicated" => n = 2)
         /\ (("bool" \in {a, b}) => n = 2)
         /\ k' = c
         /\ s' = [classes |-> n, alph |-> <<a, b>>, d |-> d, unit |-> u,
                  x |-> <<>>, y |-> <<>>, q |-> <<>>]
    /\ ph' = "data"
(* Every class is seen at least once. *)
Data ==
    /\ ph = "data" /\ Len(s.y) < MaxSet(Sizes)
    /\ \E x \in PickSeq(s.d, Coords), y \in Pick(1..s.classes) :
         s' = [s EXCEPT !.x = Append(@, x),
                        !.y = Append(@, IF Len(s.y) < s.classes THEN s.classes - Len(s.y) ELSE y)]
    /\ UNCHANGED <<ph, k>>
Enough == /\ ph = "data" /\ Len(s.y) \in Sizes /\ Len(s.y) >= s.classes
          /\ ph' = "queries" /\ UNCHANGED <<k, s>>
Query == /\ ph = "queries" /\ Len(s.q) < MaxSet(NQueries)
         /\ \E q \in PickSeq(s.d, Coords) : s' = [s EXCEPT !.q = Append(@, q)]
         /\ UNCHANGED <<ph, k>>
Finish == /\ ph = "queries" /\ Len(s.q) \in NQueries
          /\ PrintT("SCEN " \o ToJson([k |-> k, s |-> s]))
          /\ ph' = "done" /\ UNCHANGED <<k, s>>
Next == Config \/ Data \/ Enough \/ Query \/ Finish
Spec == Init /\ [][Next]_vars

(* Laws of the decision rule, on a model made of the training data.        *)
Toy == [w |-> [c \in 1..s.classes |-> s.x[c]], b |-> [c \in 1..s.classes |-> c]]
SomeLabelWins == ph = "done" => \A i \in 1..Len(s.q) : Best(Toy, s.q[i], s.unit, 0) # {}
WinnerHasTheOdds == ph = "done" => \A i \in 1..Len(s.q) : \A c \in Best(Toy, s.q[i], s.unit, 0) :
    \A e \in 1..s.classes :
       LogOdds(Toy, c, s.q[i], s.unit) >= LogOdds(Toy, e, s.q[i], s.unit)
=============================================================================
