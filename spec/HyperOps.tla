------------------------------ MODULE HyperOps ------------------------------
(***************************************************************************)
(* Values of the hyperparameters of a robust loss.                         *)
(* k.rho = <<num, den>> is the radius; k.eps, k.sig and k.lr are 0 when    *)
(* not given, sixteenths if positive, and 10^-9 (k.eps) or 10^-6 (k.sig)   *)
(* units if negative.  Regularisations are in 10^-9.                       *)
(***************************************************************************)
EXTENDS Num

FLOOR == 100
UNIT16 == 62500000                \* a sixteenth
Nul(k) == k.rho[1] = 0

(* 0.01 * 0.5^pow * rho^(pow - 1), factor after factor. *)
RECURSIVE Raise(_, _, _)
Raise(v, rho, n) == IF n = 0 THEN v ELSE Raise(RDiv(v * rho[1], rho[2]), rho, n - 1)
Heuristic(k) == Max2(FLOOR, Raise(10000000 \div Pow2(k.pow), k.rho, k.pow - 1))
(* No factor may overflow. *)
Fits(k) == \/ k.pow = 1
           \/ k.pow = 2 /\ k.rho[1] <= 100
           \/ k.pow = 3 /\ k.rho[1] <= 16
           \/ k.pow = 4 /\ k.rho[1] <= 8
Epsilon(k) == IF k.eps = 0 THEN Heuristic(k) ELSE IF k.eps < 0 THEN -k.eps ELSE k.eps * UNIT16
(* <<num, den>>; the factor is one half. *)
Sigma(k) == IF k.sig > 0 THEN <<k.sig, 16>>
            ELSE IF k.sig < 0 THEN <<-k.sig, MICRO>>
            ELSE IF Nul(k) THEN <<1, 2>> ELSE <<k.rho[1], 2 * k.rho[2]>>
(* In 10^-9, at most 1. *)
Lambda(k) == IF Nul(k) THEN 0
             ELSE IF k.rho[2] \div k.rho[1] >= 1000 THEN 1000000000
             ELSE RDiv(1000000 * k.rho[2], k.rho[1])
ImpSamp(k) == k.is /\ k.typ = 2 /\ k.pow = 2
=============================================================================
