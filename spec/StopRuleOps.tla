----------------------------- MODULE StopRuleOps -----------------------------
(***************************************************************************)
(* The stopping rule as a function of what was observed since the start of *)
(* the run: a sequence obs of records [t, lam, gt, gl] (parameters of the  *)
(* model, multiplier, and their gradients, all integers) and the iteration *)
(* number.  Tolerances are given in quarters; observations (and absolute   *)
(* tolerances) are then divided by 2^c.scale, which changes nothing.       *)
(***************************************************************************)
EXTENDS Num

(* u(v) < tol/4 * u(w), with u a norm; order 0 is the sup norm.            *)
L1(v) == SumSeq([i \in 1..Len(v) |-> Abs(v[i])])
LSup(v) == MaxSeq([i \in 1..Len(v) |-> Abs(v[i])])
Below(order, v, tol, w) ==
    CASE order = 1 -> 4 * L1(v) < tol * L1(w)
      [] order = 2 -> 16 * SumSq(v) < tol * tol * SumSq(w)
      [] order = 0 -> 4 * LSup(v) < tol * LSup(w)
(* Equal euclidean norms that are not integers: rounding decides.          *)
Border(order, v, tol, w) ==
    order = 2 /\ 16 * SumSq(v) = tol * tol * SumSq(w) /\ ~IsSquare(SumSq(v))
Unit == <<1>>

(* The quantity whose norm is watched at the n-th observation, and the     *)
(* number of the first observation that has one.                           *)
Watched(metric, what, obs, n) ==
    LET val(i) == CASE what = "t" /\ metric = "grad" -> obs[i].gt
                    [] what = "t" /\ metric = "param" -> obs[i].t
                    [] what = "l" /\ metric = "grad" -> <<obs[i].gl>>
                    [] what = "l" /\ metric = "param" -> <<obs[i].lam>>
    IN IF metric = "grad" THEN val(n) ELSE Sub(val(n), val(n - 1))
FirstOf(metric) == IF metric = "grad" THEN 1 ELSE 2

Tol(c, what) == IF what = "t" THEN c.tolt ELSE c.toll
Ref(c, what, obs) == IF c.mode = "abs" THEN Unit
                     ELSE Watched(c.metric, what, obs, FirstOf(c.metric))
Converged(c, what, obs) ==
    LET n == Len(obs) IN
    /\ Tol(c, what) > 0 /\ n > FirstOf(c.metric)
    /\ Below(c.order, Watched(c.metric, what, obs, n), Tol(c, what), Ref(c, what, obs))
Unsure(c, what, obs) ==
    LET n == Len(obs) IN
    /\ Tol(c, what) > 0 /\ n > FirstOf(c.metric)
    /\ Border(c.order, Watched(c.metric, what, obs, n), Tol(c, what), Ref(c, what, obs))

Both == {"both", "theta_and_lambda", "t&l", "lambda_and_theta", "l&t"}
Either == {"one", "theta_or_lambda", "tUl", "lambda_or_theta", "lUt"}
OnlyT == {"theta", "t"}
OnlyL == {"lambda", "l"}
Budget(c) == c.budget
Stop(c, obs, it) ==
    \/ it >= Budget(c)
    \/ c.mon \in Both /\ Converged(c, "t", obs) /\ Converged(c, "l", obs)
    \/ c.mon \in Either /\ (Converged(c, "t", obs) \/ Converged(c, "l", obs))
    \/ c.mon \in OnlyT /\ Converged(c, "t", obs)
    \/ c.mon \in OnlyL /\ Converged(c, "l", obs)
Free(c, obs) == Unsure(c, "t", obs) \/ Unsure(c, "l", obs)
=============================================================================
