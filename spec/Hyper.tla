-------------------------------- MODULE Hyper --------------------------------
(***************************************************************************)
(* Constructions of robust losses with any subset of the hyperparameters   *)
(* left to the heuristics.                                                 *)
(***************************************************************************)
EXTENDS HyperOps, Choice, Json
CONSTANTS Rhos, Costs, Labs, Epss, Sigs, Ns, Seeds, Budgets, ISs, Schemes,
          Adapts, Lrs, Doubles, Reds
VARIABLES ph, k
vars == <<ph, k>>
Init == ph = "problem" /\ k = [pow |-> 1, rho |-> <<0, 1>>, eps |-> 0, sig |-> 0, is |-> FALSE, typ |-> 1]
Problem ==
    /\ ph = "problem"
    /\ \E r \in Pick(Rhos), c \in Pick(Costs), lab \in Labs,
          e \in Pick(Epss), s \in Pick(Sigs), is \in ISs, sch \in Schemes :
         /\ k' = [rho |-> r, pow |-> c[1], typ |-> c[2], code |-> c[3], lab |-> lab, eps |-> e, sig |-> s,
                  is |-> is, scheme |-> sch]
         /\ Fits(k') = TRUE
    /\ ph' = "rest"
Rest ==
    /\ ph = "rest"
    /\ \E n \in Pick(Ns), sd \in Pick(Seeds), b \in Pick(Budgets), a \in Pick(Adapts),
          lr \in Pick(Lrs), dbl \in Pick(Doubles), rd \in Pick(Reds) :
         k' = [rho |-> k.rho, pow |-> k.pow, typ |-> k.typ, code |-> k.code, lab |-> k.lab, eps |-> k.eps,
               sig |-> k.sig, is |-> k.is, scheme |-> k.scheme, n |-> n, seed |-> sd,
               budget |-> b, adapt |-> a, lr |-> lr, double |-> dbl, red |-> rd]
    /\ ph' = "print"
Finish == /\ ph = "print"
          /\ PrintT("SCEN " \o ToJson([k |-> k, sigma |-> Sigma(k), epsilon |-> Epsilon(k)]))
          /\ ph' = "done" /\ UNCHANGED k
Next == Problem \/ Rest \/ Finish
Spec == Init /\ [][Next]_vars

Regularised == k.eps >= 0 => Epsilon(k) >= FLOOR
(* Above the floor, doubling the radius multiplies by 2^(pow - 1). *)
Twice == [k EXCEPT !.rho[1] = 2 * @]
Homogeneous == (ph # "problem" /\ k.eps = 0 /\ Fits(Twice) /\ Epsilon(k) > FLOOR) =>
    Close(Epsilon(Twice), Epsilon(k) * Pow2(k.pow - 1), 16)
UserValuesWin == (ph = "done" /\ k.eps # 0 /\ k.sig # 0) =>
    /\ Epsilon(k) = Epsilon([k EXCEPT !.rho = <<7, 2>>, !.pow = 4])
    /\ Sigma(k) = Sigma([k EXCEPT !.rho = <<0, 1>>])
=============================================================================
