-------------------------- MODULE RobustSupportOps --------------------------
(***************************************************************************)
(* Robust mean-risk value of an allocation w, a threshold and a multiplier *)
(* when returns are known to lie in a box, in micro.  The loss decreases   *)
(* with every return, so that the adversary only lowers returns: by at     *)
(* most x - low for the bounded assets, freely for the others (low =       *)
(* NONE).  Upper bounds never matter, nor do the order and the scale of    *)
(* the rows of the constraints (k.order, k.scale).  The ground norm is     *)
(* k.typ: 1, or 0 (infinity: all the returns are lowered together), or 2   *)
(* for one asset.                                                          *)
(***************************************************************************)
EXTENDS RobustFolioOps

NONE == 99
Inf == 2000000000
(* What lowering asset c by one unit is worth, for piece j of the loss.    *)
Worth(k, j, w, c) == IF j = 1 THEN w[c] ELSE w[c] + RiskRatio(k, w[c])
Room(k, x, c) == x[c] - k.low[c]
Bounded(k) == {c \in 1..k.d : k.low[c] # NONE}
Unbounded(k) == 1..k.d \ Bounded(k)
SumOver(S, Op(_)) == SumSeq([c \in 1..MaxSet(S \cup {0}) |-> IF c \in S THEN Op(c) ELSE 0])
Slack == 60
(* What the adversary gains at a sample: one asset at a time (norm 1), or  *)
(* all the assets together (norm infinity).                                *)
Gain(k, j, w, lam, x) ==
    IF k.typ # 0
    THEN IF \E c \in Unbounded(k) : Worth(k, j, w, c) > lam + Slack THEN Inf
         ELSE SumOver(Bounded(k), LAMBDA c : Room(k, x, c) * Max2(0, Worth(k, j, w, c) - lam))
    ELSE LET free == SumOver(Unbounded(k), LAMBDA c : Worth(k, j, w, c))
             at(t) == t * (free - lam)
                      + SumOver(Bounded(k), LAMBDA c : Worth(k, j, w, c) * Min2(t, Room(k, x, c)))
         IN IF free > lam + Slack THEN Inf
            ELSE MaxSet({0} \cup {at(Room(k, x, c)) : c \in Bounded(k)})
Piece(k, j, tau, r) == IF j = 1 THEN Piece1(k, tau, r) ELSE Piece2(k, tau, r)
PieceValue(k, j, w, tau, lam, x, r) ==
    With(Gain(k, j, w, lam, x), LAMBDA g : IF g = Inf THEN Inf ELSE Piece(k, j, tau, r) + g)
SampleValue(k, w, tau, lam, x) ==
    With(Dot(x, w), LAMBDA r : Max2(PieceValue(k, 1, w, tau, lam, x, r),
                                    PieceValue(k, 2, w, tau, lam, x, r)))
SupportValue(k, xs, w, tau, lam) ==
    With([i \in 1..Len(xs) |-> SampleValue(k, w, tau, lam, xs[i])],
         LAMBDA v : IF Inf \in Vals(v) THEN Inf ELSE Frac(lam, k.rho) + Mean(v))
(* Multipliers where the gain of some piece changes its slope. *)
Multipliers(k, w) ==
    {0} \cup {Worth(k, j, w, c) : j \in 1..2, c \in 1..k.d}
    \cup {SumOver(1..k.d, LAMBDA c : Worth(k, j, w, c)) : j \in 1..2}
Thresholds(xs, w) == {-Dot(xs[i], w) : i \in 1..Len(xs)}
BestOf(k, xs, w, lams, taus) ==
    MinSet({SupportValue(k, xs, w, t, l) : t \in taus, l \in lams})
=============================================================================
