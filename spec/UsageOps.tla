------------------------------ MODULE UsageOps ------------------------------
(***************************************************************************)
(* The life of one estimator in the hands of a user.                       *)
(*   fitted   "no", "yes", or "any" after a refused refit                  *)
(* Events: construct, fit, use (predict, evaluate, ...), set (change the   *)
(* radius), clone, scribble (the user overwrites the arrays they passed).  *)
(***************************************************************************)
EXTENDS Num

Methods(k) == CASE k.cls = "lr" -> {"predict", "score"}
                [] k.cls = "log" -> {"predict", "predict_proba", "score"}
                [] OTHER -> {"eval", "score"}
Unlabelled(k) == k.cls \in {"nv", "pf"}
BadConstructs(k) == {"negative-radius"}
                    \cup (IF k.cls = "pf" THEN {"negative-aversion", "zero-level", "big-level"}
                          ELSE {})
BadFits(k) == {"nan", "inf", "flat"}
              \cup (IF Unlabelled(k) THEN {} ELSE {"short"})
              \cup (IF k.cls = "log" THEN {"one-class"} ELSE {})
              \cup (IF k.cls \in {"lr", "wb"} THEN {"nan-target"} ELSE {})
Retired(k) == k.solver \in {"unknown", "retired"}

Refused(k, fitted, e) ==
    CASE e.op = "construct" -> e.bad # ""
      [] e.op = "fit" -> e.bad # "" \/ Retired(k)
      [] e.op = "use" -> fitted = "no"
      [] OTHER -> FALSE
Accepted(k, fitted, e) ==
    CASE e.op = "use" -> fitted = "yes"
      [] OTHER -> ~Refused(k, fitted, e)
FittedNext(k, fitted, e) ==
    IF e.op = "construct" THEN "no"
    ELSE IF e.op # "fit" THEN fitted
    ELSE IF ~Refused(k, fitted, e) THEN "yes"
    ELSE IF fitted = "no" THEN "no" ELSE "any"
=============================================================================
