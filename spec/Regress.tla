------------------------------- MODULE Regress -------------------------------
(***************************************************************************)
(* Trainings of the linear regression and batches of queries (multiples of *)
(* the fraction s.unit).                                                   *)
(***************************************************************************)
EXTENDS EstimConfig, Json
CONSTANTS Dims, Sizes, Coords, Targets, NQueries, Units
VARIABLES ph, k, s
vars == <<ph, k, s>>
Init == ph = "config" /\ k = <<>> /\ s = [d |-> 1, unit |-> <<1, 1>>, y |-> <<>>, x |-> <<>>, q |-> <<>>]
Config == /\ ph = "config"
          /\ \E c \in Configs, d \in Pick(Dims), u \in Pick(Units) :
               k' = c /\ s' = [s EXCEPT !.d = d, !.unit = u]
          /\ ph' = "data"
Data == /\ ph = "data" /\ Len(s.y) < MaxSet(Sizes)
        /\ \E x \in PickSeq(s.d, Coords), y \in Pick(Targets) :
             s' = [s EXCEPT !.x = Append(@, x), !.y = Append(@, y)]
        /\ UNCHANGED <<ph, k>>
Enough == ph = "data" /\ Len(s.y) \in Sizes /\ ph' = "queries" /\ UNCHANGED <<k, s>>
Query == /\ ph = "queries" /\ Len(s.q) < MaxSet(NQueries)
         /\ \E q \in PickSeq(s.d, Coords) : s' = [s EXCEPT !.q = Append(@, q)]
         /\ UNCHANGED <<ph, k>>
Finish == /\ ph = "queries" /\ Len(s.q) \in NQueries
          /\ PrintT("SCEN " \o ToJson([k |-> k, s |-> s]))
          /\ ph' = "done" /\ UNCHANGED <<k, s>>
Next == Config \/ Data \/ Enough \/ Query \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
