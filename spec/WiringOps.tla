------------------------------ MODULE WiringOps ------------------------------
(***************************************************************************)
(* The robust problem an estimator stands for, as handed to the functional *)
(* interface.                                                              *)
(***************************************************************************)
EXTENDS Num

LossOf(k, classes) ==
    CASE k.cls = "lr" -> "squared"
      [] k.cls = "log" -> IF classes = 2 THEN "logistic" ELSE "cross-entropy"
      [] k.cls = "nv" -> "newsvendor"
      [] k.cls = "pf" -> "mean-risk"
      [] k.cls = "wb" -> "weber"
Post(k) == k.solver # "pre"
(* k.eps = 0 etc.: the value of the constructor is passed, whatever it is. *)
Problem(k, classes) ==
    [loss |-> LossOf(k, classes),
     lossparams |-> CASE k.cls = "nv" -> <<k.ku>>
                      [] k.cls = "pf" -> <<k.eta, k.alpha>>
                      [] OTHER -> <<>>,
     bias |-> IF k.cls \in {"lr", "log"} THEN k.icpt ELSE FALSE,
     labelled |-> k.cls \in {"lr", "log", "wb"},
     post |-> Post(k), rho |-> k.rho, cost |-> k.cost, n |-> k.nz, seed |-> k.seed,
     eps |-> k.eps, sig |-> IF k.cls \in {"lr", "log", "wb"} THEN k.sig ELSE 0,
     l2 |-> IF k.cls = "pf" THEN 0 ELSE k.l2, budget |-> k.budget, lr |-> k.lr,
     adaptive |-> k.lr = 0]
(* With samples drawn beforehand, importance sampling is up to the         *)
(* estimator.                                                              *)
ImpSampFree(k) == k.cls \in {"lr", "log"} /\ ~Post(k)
=============================================================================
