--------------------------- MODULE RobustFolioOps ---------------------------
(***************************************************************************)
(* Robust mean-risk value of an allocation and a threshold, in micro: the  *)
(* sample average of max_j (b_j tau + a_j <w, x>) plus radius * max |a_j| *)
(* * dual norm of w, with a = (-1, -1 - eta/alpha), b = (eta, eta (1 -     *)
(* 1/alpha)).  The ground norm is k.typ: 1, 2 or 0 (infinity).             *)
(***************************************************************************)
EXTENDS Num

Frac(v, f) == RDiv(v * f[1], f[2])
RiskRatio(k, v) == With(Frac(v, k.eta), LAMBDA a : Frac(a, <<k.alpha[2], k.alpha[1]>>))
Piece1(k, tau, r) == Frac(tau, k.eta) - r
Piece2(k, tau, r) == Frac(tau, k.eta) - RiskRatio(k, tau) - r - RiskRatio(k, r)
(* Allocations have non-negative entries, units of 1/40000 for the square  *)
(* root.                                                                   *)
DualNorm(k, w) == CASE k.typ = 1 -> MaxSeq([i \in 1..Len(w) |-> Abs(w[i])])
                    [] k.typ = 0 -> SumSeq([i \in 1..Len(w) |-> Abs(w[i])])
                    [] k.typ = 2 -> 25 * Root(SumSq([i \in 1..Len(w) |-> RDiv(w[i], 25)]))
Penalty(k, w) == With(DualNorm(k, w), LAMBDA n : Frac(n + RiskRatio(k, n), k.rho))
(* Quotients first: sums do not fit. *)
Mean(v) == With([i \in 1..Len(v) |-> v[i]], LAMBDA u :
             SumSeq([i \in 1..Len(u) |-> u[i] \div Len(u)])
             + SumSeq([i \in 1..Len(u) |-> u[i] % Len(u)]) \div Len(u))
Value(k, xs, w, tau) ==
    Penalty(k, w)
    + Mean([i \in 1..Len(xs) |->
             With(Dot(xs[i], w), LAMBDA r : Max2(Piece1(k, tau, r), Piece2(k, tau, r)))])
(* For a given allocation the best threshold is the opposite of a return.  *)
BestValue(k, xs, w) == MinSet({Value(k, xs, w, -Dot(xs[i], w)) : i \in 1..Len(xs)})
(* Allocations of a grid with steps 1/g. *)
Grid(d, g) == {[i \in 1..d |-> (MICRO * c[i]) \div g] :
                 c \in {c \in [1..d -> 0..g] : SumSeq(c) = g}}
(* From w, a share of everything moved to asset j. *)
Towards(w, j, num, den) ==
    [i \in 1..Len(w) |-> RDiv(w[i] * (den - num), den) + (IF i = j THEN (MICRO * num) \div den ELSE 0)]
=============================================================================
