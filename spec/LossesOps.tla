----------------------------- MODULE LossesOps -----------------------------
(***************************************************************************)
(* The built-in losses on integer data.  f is the loss, p its parameters   *)
(* [w, b, ...], (x, y) a sample.  Values are in micro; logistic losses are *)
(* in micro of ln 2 (weights are integer multiples of ln 2), portfolio     *)
(* logits are integer multiples of ln 2.  p.l2 is the l2 weight in         *)
(* eighths.                                                                *)
(***************************************************************************)
EXTENDS Num

Penalty(p) == IF p.l2 > 0 THEN (MICRO \div 16) * p.l2 * SumSq(p.w) ELSE 0

(* log2(1 + 2^-k) *)
Beyond(k) == IF k <= 10 THEN LG[1 + Pow2(k)] - k * MICRO      \* k >= 0
           ELSE IF k <= 21 THEN RDiv(1442695, Pow2(k)) ELSE 0
SoftPlus(k) == IF k >= 0 THEN Beyond(k) ELSE Beyond(-k) - k * MICRO
SoftPlusKnown(k) == Abs(k) <= 900

Logistic(p, x, y) == SoftPlus(y * (Dot(p.w, x) + p.b)) + Penalty(p)
Quadratic(p, x, y) == MICRO * Pow(Dot(p.w, x) + p.b - y, 2) + Penalty(p)
Newsvendor(p, x) == MICRO * (p.k * p.w[1] - p.u * Min2(p.w[1], x[1])) + Penalty(p)

(* Portfolio: allocation 2^w[i] / S; risk level p.an/p.ad. *)
Mass(p) == SumSeq([i \in 1..Len(p.w) |-> Pow2(p.w[i])])
Gain(p, x) == SumSeq([i \in 1..Len(p.w) |-> Pow2(p.w[i]) * x[i]])
PortfolioNum(p, x) ==
    -Gain(p, x) * p.an + p.eta * p.tau * p.an * Mass(p)
      + p.eta * p.ad * Max2(-Gain(p, x) - p.tau * Mass(p), 0)
PortfolioDen(p) == p.an * Mass(p)
Portfolio(p, x) ==        \* split to keep integers small
    LET q == PortfolioNum(p, x) \div PortfolioDen(p)
        r == PortfolioNum(p, x) % PortfolioDen(p)
    IN  q * MICRO + RDiv(r * MICRO, PortfolioDen(p))

Weber(p, x, y) == MICRO * y * Isqrt(SumSq(Sub(x, p.w)))
WeberKnown(p, x) == IsSquare(SumSq(Sub(x, p.w)))

Value(f, p, x, y) ==
    CASE f = "logistic" -> Logistic(p, x, y)
      [] f = "quadratic" -> Quadratic(p, x, y)
      [] f \in {"newsvendor", "newsvendor_estimator"} -> Newsvendor(p, x)
      [] f = "portfolio" -> Portfolio(p, x)
      [] f = "weber" -> Weber(p, x, y)
Known(f, p, x, y) ==
    CASE f = "logistic" -> SoftPlusKnown(y * (Dot(p.w, x) + p.b))
      [] f = "quadratic" -> Abs(Dot(p.w, x) + p.b - y) <= 28
      [] f = "portfolio" -> Abs(PortfolioNum(p, x)) <= 900 * PortfolioDen(p)
      [] f = "weber" -> WeberKnown(p, x) /\ Abs(y) * Isqrt(SumSq(Sub(x, p.w))) <= 900
      [] OTHER -> Abs(p.k * p.w[1] - p.u * Min2(p.w[1], x[1])) <= 900
(* Room for the penalty. *)
Small(p) == p.l2 > 0 => p.l2 * SumSq(p.w) <= 1600
============================================================================
