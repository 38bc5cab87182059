------------------------------- MODULE Losses -------------------------------
(* Evaluations of the built-in losses.                                     *)
EXTENDS LossesOps, Choice, Json
CONSTANTS Funs, Dims, L2s, Weights, Biases, Coords, Ys, Layouts, Ms, Ns, Prices, Etas, Taus, Alphas,
          Floats
VARIABLES ph, f, p, s
vars == <<ph, f, p, s>>

Init == ph = "loss" /\ f \in Funs /\ p = <<>> /\ s = <<>>

PickParams ==
    /\ ph = "loss"
    /\ \E d \in IF f \in {"newsvendor", "newsvendor_estimator"} THEN {1} ELSE Dims,
          l2 \in IF f \in {"logistic", "quadratic", "newsvendor"} THEN L2s ELSE {0} :
       \E w \in PickSeq(d, IF f = "portfolio" THEN 0..3 ELSE Weights),
          b \in IF f \in {"logistic", "quadratic"} THEN Pick(Biases) ELSE {0},
          icpt \in {TRUE, FALSE}, f32 \in Floats :
         /\ icpt \/ b = 0
         /\ p' = [d |-> d, l2 |-> l2, w |-> w, b |-> b, icpt |-> icpt, f32 |-> f32]
         /\ Small(p') = TRUE
    /\ ph' = "more" /\ UNCHANGED <<f, s>>
PickMore ==
    /\ ph = "more"
    /\ \E k \in Pick(Prices), u \in Pick(Prices), eta \in Pick(Etas), tau \in Pick(Taus),
          al \in Pick(Alphas) :
         p' = p @@ [k |-> k, u |-> u, eta |-> eta, tau |-> tau, an |-> al[1], ad |-> al[2]]
    /\ ph' = "layout" /\ UNCHANGED <<f, s>>
PickLayout ==
    /\ ph = "layout"
    /\ \E lay \in Layouts : \E m \in Ms, n \in IF lay = "stack" THEN Ns ELSE {1} :
         /\ f = "weber" => lay = "batch"
         /\ s' = [lay |-> lay, m |-> m, n |-> n, x |-> <<>>, y |-> <<>>]
    /\ ph' = "points" /\ UNCHANGED <<f, p>>
(* A point where the value is known: among some draws, or everywhere. *)
KnownPoints(y) ==
    IF Sampled THEN LET some == {t \in PickMany(40, p.d, Coords) : Known(f, p, t, y)}
                    IN  IF some = {} THEN {} ELSE Pick(some)
    ELSE {t \in [1..p.d -> Coords] : Known(f, p, t, y)}
PickPoint ==
    /\ ph = "points" /\ Len(s.x) < s.n * s.m
    /\ \E y \in Pick(IF f = "logistic" THEN {-1, 1} ELSE Ys) :
       \E x \in KnownPoints(y) :
         s' = [s EXCEPT !.x = Append(@, x), !.y = Append(@, y)]
    /\ UNCHANGED <<ph, f, p>>
Finish ==
    /\ ph = "points" /\ Len(s.x) = s.n * s.m
    /\ PrintT("SCEN " \o ToJson([f |-> f, p |-> p, s |-> s]))
    /\ ph' = "done" /\ UNCHANGED <<f, p, s>>
Next == PickParams \/ PickMore \/ PickLayout \/ PickPoint \/ Finish
Spec == Init /\ [][Next]_vars

At(i) == Value(f, p, s.x[i], s.y[i])
Law(fun, P(_)) == (ph = "done" /\ f = fun) => \A i \in 1..Len(s.x) : P(i)
LogisticAboveMargin == Law("logistic", LAMBDA i :
    /\ At(i) >= Penalty(p)
    /\ At(i) >= Penalty(p) - MICRO * s.y[i] * (Dot(p.w, s.x[i]) + p.b) - 1)
LogisticOdds == Law("logistic", LAMBDA i :       \* softplus(k) - softplus(-k) = -k
    LET k == s.y[i] * (Dot(p.w, s.x[i]) + p.b) IN SoftPlus(k) - SoftPlus(-k) = -k * MICRO)
PortfolioAboveMean == Law("portfolio", LAMBDA i :
    LET q == [p EXCEPT !.eta = 0] IN
    p.tau >= 0 => At(i) >= Value(f, q, s.x[i], s.y[i]) - 1)
NewsvendorConvex == Law("newsvendor", LAMBDA i :
    LET v(t) == Newsvendor([p EXCEPT !.w = <<t>>, !.l2 = 0], s.x[i]) IN
    v(p.w[1] - 1) + v(p.w[1] + 1) >= 2 * v(p.w[1]))
=============================================================================
