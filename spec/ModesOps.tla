------------------------------ MODULE ModesOps ------------------------------
(***************************************************************************)
(* What the user's model looks like next to the robust losses built on it. *)
(* The model has six modules and four parameters:                          *)
(*   module 1: transform      2: its linear layer    3: its dropout layer  *)
(*   module 4: nested block   5: its linear layer    6: loss module        *)
(*   parameters 1, 2: layer 2 (weight, bias); 3: layer 5; 4: loss module   *)
(* The state is [rg, mode, live]: which parameters are trainable, which    *)
(* modules are in training mode, and whether a robust loss exists.         *)
(***************************************************************************)
EXTENDS Num

NM == 6
NP == 4
Below(m) == CASE m = 1 -> 1..5 [] m = 4 -> {4, 5} [] OTHER -> {m}

SetRg(s, p, b) == [s EXCEPT !.rg[p] = b]
(* torch: module.train(b) reaches the whole subtree. *)
SetMode(s, m, b) == [s EXCEPT !.mode = [i \in 1..NM |-> IF i \in Below(m) THEN b ELSE @[i]]]
AllMode(s, b) == [s EXCEPT !.mode = [i \in 1..NM |-> b]]

(* Only the user's own switches, and the switches of the robust loss, act. *)
Effect(s, e) ==
    CASE e.op = "setrg" -> SetRg(s, e.p, e.b)
      [] e.op = "setmode" -> SetMode(s, e.p, e.b)
      [] e.op = "train" -> AllMode(s, e.b)
      [] e.op = "train0" -> AllMode(s, TRUE)
      [] e.op = "eval" -> AllMode(s, FALSE)
      [] e.op = "build" -> [s EXCEPT !.live = TRUE]
      [] OTHER -> s
Fresh == [rg |-> [i \in 1..NP |-> TRUE], mode |-> [i \in 1..NM |-> TRUE], live |-> FALSE]
Switch(e) == e.op \in {"train", "train0", "eval"}
Trainable(s) == \E i \in 1..NP : s.rg[i]
=============================================================================
