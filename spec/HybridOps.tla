------------------------------ MODULE HybridOps ------------------------------
(***************************************************************************)
(* Updates of the parameter groups of the hybrid optimizers.               *)
(* Additive groups carry their coordinates in halves.  Multiplicative ones *)
(* carry powers of two: step sizes are multiples of ln 2, so that          *)
(* exp(-step) is a power of two.                                           *)
(***************************************************************************)
EXTENDS Num

Marks == {"mwu", "mwu_simplex", "non_neg", "max", "bound"}
Has(g, m) == \E i \in 1..Len(g.marks) : g.marks[i] = m
Multiplicative(g) == Has(g, "mwu") \/ Has(g, "mwu_simplex")
(* Bounding the gradient and clipping at zero may go together; any other   *)
(* pair contradicts itself.                                                *)
Conflict(g) == Len(g.marks) > 1 /\ ~(Has(g, "bound") /\ Has(g, "non_neg") /\ Len(g.marks) = 2)
Mixed(g) == Len(g.marks) = 2 /\ ~Conflict(g)

Clip(v, b) == Max2(-b, Min2(b, v))
Grad(g, v) == IF Has(g, "bound") THEN Clip(v, 100) ELSE v
(* What plain gradient descent, or Adam under a constant gradient, follows.*)
Dir(opt, v) == IF opt = "adam" THEN Sgn(v) ELSE v
(* One coordinate: x in halves, or exponent. *)
Move(opt, g, x, v) ==
    LET s == g.lr * Dir(opt, Grad(g, v)) IN
    IF Has(g, "max") THEN x + s
    ELSE IF Has(g, "non_neg") THEN Max2(0, x - s)
    ELSE x - s
Update(opt, g, xs, vs) == [i \in 1..Len(xs) |-> Move(opt, g, xs[i], vs[i])]

(* Values in micro. *)
Value(g, xs, i, stepped) ==
    IF Has(g, "mwu_simplex") /\ stepped
    THEN LET lo == MinSeq(xs)
         IN  RDiv(MICRO * Pow2(xs[i] - lo), SumSeq([j \in 1..Len(xs) |-> Pow2(xs[j] - lo)]))
    ELSE IF Multiplicative(g)
    THEN IF xs[i] >= 0 THEN MICRO * Pow2(xs[i]) ELSE RDiv(MICRO, Pow2(-xs[i]))
    ELSE xs[i] * (MICRO \div 2)
Spread(xs) == MaxSeq(xs) - MinSeq(xs)
=============================================================================
