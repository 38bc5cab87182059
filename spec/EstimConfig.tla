----------------------------- MODULE EstimConfig -----------------------------
(***************************************************************************)
(* Parameters of the estimators.                                           *)
(*   cls     lr, log (regressions), nv, pf, wb (decision problems)         *)
(*   solver  post, torch, pre (entropic), dedicated                        *)
(*   rho     radius, <<num, den>>                                          *)
(*   nz      number of adversarial samples; seed; budget <<n>> or <<n, m>>,*)
(*           <<>> when left to the estimator                               *)
(*   lr, eps, sig   step size, regularisation, noise scale in sixteenths,  *)
(*           0 when left to the estimator, eps = -n for 10^-n             *)
(*   l2      l2 strength in sixteenths; icpt: intercept fitted             *)
(*   cost    <<power, type>>, then the weight of the labels in quarters    *)
(*           (costs of labelled data); ku: newsvendor prices; eta, alpha   *)
(*   supp    portfolios: returns of the two assets are known to be at      *)
(*           least -supp, 0 when nothing is known                          *)
(***************************************************************************)
EXTENDS Num, Choice
CONSTANTS Classes, Solvers, Rhos, NZs, Seeds, Budgets, Lrs, Epss, Sigs, L2s, Icpts, Costs,
          KUs, Etas, Alphas, Supps

Dedicated(k) == k.solver = "dedicated"
Allowed(k) == k.cls = "wb" => ~Dedicated(k)
Configs == {k \in {[cls |-> c, solver |-> s, rho |-> r, nz |-> nz, seed |-> sd, budget |-> b,
                    lr |-> lr, eps |-> e, sig |-> sg, l2 |-> l2, icpt |-> ic, cost |-> co,
                    ku |-> ku, eta |-> et, alpha |-> al, supp |-> su] :
                   c \in Pick(Classes), s \in Pick(Solvers), r \in Pick(Rhos),
                   nz \in Pick(NZs), sd \in Pick(Seeds), b \in Pick(Budgets),
                   lr \in Pick(Lrs), e \in Pick(Epss), sg \in Pick(Sigs), l2 \in Pick(L2s),
                   ic \in Pick(Icpts), co \in Pick(Costs), ku \in Pick(KUs),
                   et \in Pick(Etas), al \in Pick(Alphas), su \in Pick(Supps)} : Allowed(k)}
=============================================================================
