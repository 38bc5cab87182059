----------------------------- MODULE HistoryOps -----------------------------
(***************************************************************************)
(* Estimators living side by side in one process.                          *)
(* A slot is [k, rule, fit]: configuration, tolerances of its stopping     *)
(* rule, and what its model is a function of: [known, k, rule, d] (d names *)
(* the training set), not known before a fit and after a refused one.      *)
(***************************************************************************)
EXTENDS Num

NoFit(k) == [known |-> FALSE, k |-> k, rule |-> 0, d |-> 0]
Fresh(k, r) == [k |-> k, rule |-> r, fit |-> NoFit(k)]
After(slot, e) ==
    CASE e.op \in {"new", "clone"} -> Fresh(e.k, e.rule)
      [] e.op = "set" -> [slot EXCEPT !.k = e.k]
      [] e.op = "fit" -> [slot EXCEPT !.fit = [known |-> TRUE, k |-> slot.k,
                                               rule |-> slot.rule, d |-> e.d]]
      [] e.op = "fail" -> [slot EXCEPT !.fit = NoFit(slot.k)]
      [] OTHER -> slot
=============================================================================
