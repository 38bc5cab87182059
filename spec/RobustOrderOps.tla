--------------------------- MODULE RobustOrderOps ---------------------------
(***************************************************************************)
(* Worst-case cost of a newsvendor order over the distributions of non-    *)
(* negative demands within Wasserstein-1 distance k.rho of the sample.     *)
(* Demands are halves, the radius <<num, den>>, orders and costs in micro. *)
(* The adversary moves demands to zero; undoing min(t, x) costs x, so that *)
(* small demands are moved first.                                          *)
(***************************************************************************)
EXTENDS Num, SequencesExt

HALF == MICRO \div 2
Sorted(xs) == SortSeq(xs, <)
(* Moves are in sixteenths: rho[2] divides 16. *)
Budget(k, n) == (16 * n * k.rho[1]) \div k.rho[2]
RECURSIVE Moved(_, _)
Moved(xs, b) ==      \* how much of every demand is moved
    IF xs = <<>> THEN <<>>
    ELSE With(Min2(b, 8 * Head(xs)), LAMBDA m : <<m>> \o Moved(Tail(xs), b - m))
(* What the adversary gains by moving m out of x: m * min(t, x) / x. *)
Gain(m, t, x) == IF x = 0 THEN 0 ELSE RDiv(m * Min2(t, x * HALF), 8 * x)
NValue(k, xs, ms, t) ==      \* times the number of samples
    LET n == Len(xs) IN
    n * k.ku[1] * t
    - k.ku[2] * SumSeq([i \in 1..n |-> Min2(t, xs[i] * HALF) - Gain(ms[i], t, xs[i])])
Candidates(xs) == {0} \cup {xs[i] * HALF : i \in 1..Len(xs)}
BestNValue(k, xs, ms) == MinSet({NValue(k, xs, ms, t) : t \in Candidates(xs)})
=============================================================================
