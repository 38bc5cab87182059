---------------------------- MODULE RobustRegOps ----------------------------
(***************************************************************************)
(* Optimality of robust regressions.  Coefficients and residuals are in    *)
(* micro, directions (unit vectors) and gradients in thousandths.          *)
(***************************************************************************)
EXTENDS Num

MILLI == 1000
Top(v) == MaxSeq([i \in 1..Len(v) |-> Abs(v[i])])
(* Vectors are rescaled so that their largest entry is below 14000 before  *)
(* taking their norm.                                                      *)
Unit(v) == 1 + Top(v) \div 14000
Rescaled(v) == With(Unit(v), LAMBDA u : [i \in 1..Len(v) |-> RDiv(v[i], u)])
Norm(v) == IF Top(v) = 0 THEN 0
           ELSE With(Rescaled(v), LAMBDA r : Unit(v) * Root(SumSq(r)))
(* v / |v|, in thousandths. *)
Direction(v) == With(Rescaled(v), LAMBDA r : With(Root(SumSq(r)),
                   LAMBDA n : [i \in 1..Len(v) |-> RDiv(MILLI * r[i], n)]))
(* Square root of a number of samples, in thousandths. *)
RootOf(n) == Root(n * MILLI * MILLI)

Column(xs, j) == [i \in 1..Len(xs) |-> xs[i][j]]
Predict(m, x) == Dot(x, m.w) + m.b
Frac(v, f) == RDiv(v * f[1], f[2])

----------------------------------------------------------------------------
(* Root mean square residual + rho |w|. *)
Residuals(m, xs, ys) == [i \in 1..Len(xs) |-> Predict(m, xs[i]) - MICRO * ys[i]]
OverRoot(v, q) == MILLI * (v \div q) + RDiv(MILLI * (v % q), q)
Rms(r) == With(Norm(r), LAMBDA n : OverRoot(n, RootOf(Len(r))))
LinObjective(k, m, xs, ys) == Rms(Residuals(m, xs, ys)) + Frac(Norm(m.w), k.rho)
(* Gradient of the first term along feature column c, in thousandths. *)
LinSlope(r, c) == With(Direction(r), LAMBDA u :
                     RDiv(MILLI * Dot(c, u), RootOf(Len(r))))
----------------------------------------------------------------------------
(* Mean logistic loss + rho |w|; sl[i] is the derivative of the loss at    *)
(* the margin of sample i, in micro.                                       *)
Margins(m, xs, ys) == [i \in 1..Len(xs) |-> ys[i] * Predict(m, xs[i])]
LogSlope(sl, ys, c) ==
    RDiv(SumSeq([i \in 1..Len(ys) |-> -ys[i] * c[i] * RDiv(sl[i], MILLI)]), Len(ys))
----------------------------------------------------------------------------
(* First-order conditions of slopes g + rho * subdifferential of |w|.      *)
Stationary(k, w, g, small, tol) ==
    IF Top(w) >= small
    THEN With(Direction(w), LAMBDA u :
           \A j \in 1..Len(w) : Close(g[j] + Frac(u[j], k.rho), 0, tol))
    ELSE Norm([j \in 1..Len(w) |-> g[j]]) <= Frac(MILLI, k.rho) + tol
=============================================================================
