------------------------------ MODULE Multiplier ------------------------------
(***************************************************************************)
(* The dual multiplier under projected steps.  The size of a step is the   *)
(* optimizer's business: the model lets it be anything in StepSizes, with  *)
(* the sign opposed to the gradient, then projects.  Scenarios are the     *)
(* histories of gradients pushed into the optimizer (sign and decimal      *)
(* exponent), of true gradient steps, initial guesses and whole solves.    *)
(***************************************************************************)
EXTENDS Num, Choice, Json
CONSTANTS Kinds, Lrs, Rs, Pows, ISs, Pushes, StepSizes, Steps, Ops
VARIABLES ph, k, lam, h
vars == <<ph, k, lam, h>>

Init == ph = "kind" /\ k = <<>> /\ lam = 1 /\ h = <<>>
PickKind ==
    /\ ph = "kind"
    /\ \E kind \in Kinds, lr \in Lrs, r \in Rs, p \in Pows, imp \in ISs :
         /\ kind \in {"prodigy", "mechanic"} => lr = 0
         /\ kind = "mechanic" => r > 0     \* mechanic needs a gradient
         /\ k' = [kind |-> kind, lr |-> lr, r |-> r, pow |-> p, is |-> imp]
    /\ ph' = "life" /\ UNCHANGED <<lam, h>>
Project(v) == Max2(0, v)
Push ==
    /\ "push" \in Ops
    /\ \E g \in Pushes, t \in Pick(StepSizes) :
         /\ lam' = Project(lam - Sgn(g) * t)
         /\ h' = Append(h, [op |-> "push", g |-> g])
Train == /\ "train" \in Ops
         /\ \E t \in Pick(StepSizes), s \in Pick({-1, 1}) : lam' = Project(lam - s * t)
         /\ h' = Append(h, [op |-> "train", g |-> 0])
Guess == /\ "guess" \in Ops
         /\ \E t \in Pick(StepSizes) : lam' = t
         /\ h' = Append(h, [op |-> "guess", g |-> 0])
Solve == /\ "solve" \in Ops
         /\ \E t \in Pick(StepSizes) : lam' = t
         /\ h' = Append(h, [op |-> "solve", g |-> 0])
Zero == /\ "zero" \in Ops        \* the user restarts from a null multiplier
        /\ lam' = 0
        /\ h' = Append(h, [op |-> "zero", g |-> 0])
Act == ph = "life" /\ Len(h) < Steps /\ (Push \/ Train \/ Guess \/ Solve \/ Zero) /\ UNCHANGED <<ph, k>>
Finish == /\ ph = "life" /\ Len(h) = Steps
          /\ PrintT("SCEN " \o ToJson([k |-> k, h |-> h]))
          /\ ph' = "done" /\ UNCHANGED <<k, lam, h>>
Next == PickKind \/ Act \/ Finish
Spec == Init /\ [][Next]_vars

NonNegative == lam >= 0
(* A push never moves the multiplier along its gradient. *)
Descends == [][\A i \in {Len(h')} : (i > Len(h) /\ h'[i].op = "push") =>
                 (h'[i].g > 0 => lam' <= lam) /\ (h'[i].g < 0 => lam' >= lam)]_vars
=============================================================================
