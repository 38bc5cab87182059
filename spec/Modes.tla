-------------------------------- MODULE Modes --------------------------------
(***************************************************************************)
(* Histories of a user's model and of the robust losses built on it.  The  *)
(* user freezes parameters and switches modules at any time; robust losses *)
(* are built, evaluated, differentiated, switched, given an initial        *)
(* multiplier, or asked for an evaluation that fails halfway.              *)
(***************************************************************************)
EXTENDS ModesOps, Choice, Json
CONSTANTS Schemes, ISs, R2s, Labs, Costs, Params, Modules, Steps, Ops
VARIABLES ph, k, s, h
vars == <<ph, k, s, h>>

Init == ph = "kind" /\ k = <<>> /\ s = Fresh /\ h = <<>>
PickKind ==
    /\ ph = "kind"
    /\ \E sc \in Schemes, imp \in ISs, r \in R2s, lab \in Labs, c \in Costs :
         k' = [scheme |-> sc, is |-> imp, r2 |-> r, lab |-> lab, cost |-> c]
    /\ ph' = "life" /\ UNCHANGED <<s, h>>

Ev(op, p, b) == [op |-> op, p |-> p, b |-> b]
Events ==
    {Ev("setrg", p, b) : p \in Params, b \in BOOLEAN}
    \cup {Ev("setmode", m, b) : m \in Modules, b \in BOOLEAN}
    \cup {Ev("build", 0, TRUE)}
    \cup (IF ~s.live THEN {}
          ELSE {Ev("train", 0, b) : b \in BOOLEAN}
               \cup {Ev(op, 0, TRUE) : op \in {"train0", "eval", "forward", "backward",
                                               "guess", "broken"}})
Useful(e) ==
    /\ e.op \in Ops
    /\ e.op = "setrg" => s.rg[e.p] # e.b
    /\ e.op = "setmode" => s.mode[e.p] # e.b
    /\ e.op \in {"forward", "backward", "guess", "broken"} => s.live
    /\ e.op = "backward" => Trainable(s) \/ k.r2 > 0
    /\ e.op = "guess" => k.r2 > 0
Act ==
    /\ ph = "life" /\ Len(h) < Steps
    /\ \E e \in {x \in Events : Useful(x)} :
         /\ h' = Append(h, e)
         /\ s' = Effect(s, e)
    /\ UNCHANGED <<ph, k>>
Finish ==
    /\ ph = "life" /\ Len(h) = Steps /\ \E i \in 1..Steps : h[i].op # "setrg"
    /\ PrintT("SCEN " \o ToJson([k |-> k, h |-> h]))
    /\ ph' = "done" /\ UNCHANGED <<k, s, h>>
Next == PickKind \/ Act \/ Finish
Spec == Init /\ [][Next]_vars

(* The final state is what the user last asked for, whatever happened in   *)
(* between.                                                                *)
LastSaid(p) == LET idx == {i \in 1..Len(h) : h[i].op = "setrg" /\ h[i].p = p}
               IN IF idx = {} THEN TRUE ELSE h[MaxSet(idx)].b
UserDecidesTrainable == \A p \in 1..NP : s.rg[p] = LastSaid(p)
NoLossBeforeBuild == s.live => \E i \in 1..Len(h) : h[i].op = "build"
(* Evaluations leave the model as it is. *)
Untouched == [][\A i \in {Len(h')} :
    (i > Len(h) /\ h'[i].op \in {"build", "forward", "backward", "guess", "broken"})
        => (s'.rg = s.rg /\ s'.mode = s.mode)]_vars
=============================================================================
