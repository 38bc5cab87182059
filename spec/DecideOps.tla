------------------------------ MODULE DecideOps ------------------------------
(***************************************************************************)
(* Losses of the decision problems at a fitted decision, in micro.  A      *)
(* decision is [w, tau]: order, allocation or position; risk threshold.    *)
(* Points are in 1/u.den, weights in 1/u.wden.                             *)
(***************************************************************************)
EXTENDS Num

Frac(v, f) == RDiv(v * f[1], f[2])
Relu(v) == Max2(v, 0)
Newsvendor(k, u, w, x) == k.ku[1] * w - k.ku[2] * Min2(w, x * (MICRO \div u.den))
Portfolio(k, u, w, tau, x) ==
    LET r == RDiv(Dot(x, w), u.den)
        cvar == tau + Frac(Relu(-r - tau), <<k.alpha[2], k.alpha[1]>>)
    IN  -r + Frac(cvar, k.eta)
(* Distances in 1/4000, or 1/2000 when there are many coordinates. *)
Grain(d) == IF d <= 2 THEN 250 ELSE 500
Distance(u, w, x) == With(Grain(Len(w)), LAMBDA g :
    g * Root(SumSq([i \in 1..Len(w) |-> RDiv(w[i], g) - (MICRO \div (g * u.den)) * x[i]])))
Loss(k, u, dec, x, y) ==
    CASE k.cls = "nv" -> Newsvendor(k, u, dec.w[1], x[1])
      [] k.cls = "pf" -> Portfolio(k, u, dec.w, dec.tau, x)
      [] k.cls = "wb" -> RDiv(y * Distance(u, dec.w, x), u.wden)
(* Quotients first: sums do not fit. *)
Mean(v) == With([i \in 1..Len(v) |-> v[i]], LAMBDA w :
             SumSeq([i \in 1..Len(w) |-> w[i] \div Len(w)])
             + SumSeq([i \in 1..Len(w) |-> w[i] % Len(w)]) \div Len(w))
Average(k, u, dec, xs, ys) ==
    Mean([i \in 1..Len(xs) |-> Loss(k, u, dec, xs[i], ys[i])])
(* ys: the weights. The threshold is known up to a few units. *)
Tol(k, d, ys) == CASE k.cls = "wb" -> 5 * Grain(d) * MaxSeq([i \in 1..Len(ys) |-> 1 + Abs(ys[i])])
                   [] k.cls = "pf" -> 150 + Frac(5 * k.alpha[2], <<k.eta[1], k.eta[2] * k.alpha[1]>>)
                   [] OTHER -> 150

OnSimplex(w, tol) == /\ \A i \in 1..Len(w) : w[i] >= -tol
                     /\ Close(SumSeq(w), MICRO, Len(w) * tol)
=============================================================================
