-------------------------------- MODULE Usage --------------------------------
(***************************************************************************)
(* Lives of an estimator: every order of calls, refused ones included. The *)
(* stopping rule is given, given as None, or left out; a support may be    *)
(* given to portfolios.                                                    *)
(***************************************************************************)
EXTENDS EstimConfig, UsageOps, Sequences, Json
CONSTANTS Rules, Supports, Forms, Arrays, Draws, MaxLen
VARIABLES ph, k, fitted, es
vars == <<ph, k, fitted, es>>
Init == ph = "config" /\ k = <<>> /\ fitted = "no" /\ es = <<>>
Does(c, e) == /\ es' = Append(es, e)
              /\ fitted' = FittedNext(c, fitted, e)
Do(e) == Does(k, e)
Construct == /\ ph = "config"
             /\ \E c \in Configs, f \in Pick(Forms), r \in Pick(Rules), z \in Pick(Supports) :
                  /\ Allowed(c)
                  /\ k' = c
                  /\ \E b \in {""} \cup PickSome(BadConstructs(c)) :
                       /\ Does(c, [op |-> "construct", form |-> f, rule |-> r, support |-> z,
                                   bad |-> b])
                       /\ ph' = IF b = "" THEN "live" ELSE "over"
Live == ph = "live" /\ Len(es) <= MaxLen
Fit == /\ Live
       /\ \E a \in Pick(Arrays), d \in Pick(Draws), b \in {""} \cup PickSome(BadFits(k)) :
            Do([op |-> "fit", arr |-> a, draw |-> d, bad |-> b])
       /\ UNCHANGED <<ph, k>>
Use == /\ Live
       /\ \E m \in Methods(k), a \in Pick(Arrays) : Do([op |-> "use", m |-> m, arr |-> a])
       /\ UNCHANGED <<ph, k>>
SetRadius == /\ Live
             /\ \E r \in Pick(Rhos), f \in Pick(Forms) :
                  Do([op |-> "set", rho |-> r, form |-> f])
             /\ UNCHANGED <<ph, k>>
Clone == Live /\ Do([op |-> "clone"]) /\ UNCHANGED <<ph, k>>
Scribble == Live /\ fitted = "yes" /\ Do([op |-> "scribble"]) /\ UNCHANGED <<ph, k>>
Finish == /\ ph = "over" \/ (ph = "live" /\ Len(es) > MaxLen)
          /\ PrintT("SCEN " \o ToJson([k |-> k, es |-> es]))
          /\ ph' = "done" /\ UNCHANGED <<k, fitted, es>>
Next == Construct \/ Fit \/ Use \/ SetRadius \/ Clone \/ Scribble \/ Finish
Spec == Init /\ [][Next]_vars

(* A retired or unknown solver never trains; training needs a fit that was *)
(* not refused; what is neither accepted nor refused is only the use of an *)
(* estimator after a refused refit.                                        *)
NeverTrained == (ph # "config" /\ Retired(k)) => fitted = "no"
TrainedByAFit == fitted # "no" => \E i \in 1..Len(es) : es[i].op = "fit" /\ es[i].bad = ""
Settled == ph = "live" =>
    \A m \in Methods(k) :
        LET e == [op |-> "use", m |-> m, arr |-> "f64"]
        IN Accepted(k, fitted, e) # Refused(k, fitted, e) \/ fitted = "any"
=============================================================================
