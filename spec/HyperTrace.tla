----------------------------- MODULE HyperTrace -----------------------------
(* Judges recorded constructions of robust losses: [k, o], o = [raised,    *)
(* eps, lam, lamrho, trains, rho, n, drawn, seedgap, budget, is, lr, red,  *)
(* twin].  lamrho is the multiplier times the radius.                      *)
(* seedgap compares its samples with those of a sampler built with the     *)
(* expected noise scale and seed, relatively to that scale; twin compares  *)
(* its value with the one of the loss built from the expected values.      *)
EXTENDS HyperOps, TraceLib
VARIABLE l
Rel(a, b) == Close(a, b, 1 + Abs(b) \div 50000)
Given(k) == Len(k.budget) > 0
Clauses(k, o) ==
    IF o.raised # "" THEN {"raised"}
    ELSE (IF Rel(o.eps, Epsilon(k)) THEN {} ELSE {"regularisation"})
    \cup (IF Rel(o.lam, Lambda(k)) /\ (Nul(k) \/ Close(o.lamrho, 1000000, 100))
          THEN {} ELSE {"initial-multiplier"})
    \cup (IF o.trains = ~Nul(k) THEN {} ELSE {"multiplier-trainable"})
    \cup (IF Rel(o.rho, RDiv(MICRO * k.rho[1], k.rho[2])) THEN {} ELSE {"radius"})
    \cup (IF o.n = k.n /\ o.drawn = k.n THEN {} ELSE {"number-of-samples"})
    \cup (IF o.seedgap <= 200 + Sigma(k)[2] \div Sigma(k)[1] THEN {} ELSE {"noise-scale-or-seed"})
    \cup (IF Given(k) => o.budget = k.budget THEN {} ELSE {"budget"})
    \cup (IF o.is = ImpSamp(k) THEN {} ELSE {"importance-sampling"})
    \cup (IF (k.lr # 0 /\ (k.adapt = "none" \/ k.scheme = "pre")) => Rel(o.lr, k.lr * 62500)
          THEN {} ELSE {"step-size"})
    \cup (IF o.red = (IF k.red = "default" THEN "mean" ELSE k.red) THEN {} ELSE {"reduction"})
    \cup (IF o.twin <= 100 THEN {} ELSE {"value"})
Init == l = 1
Step == /\ l <= Len(Log)
        /\ LET r == Log[l] IN Report(l, Clauses(r.k, r.o))
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
=============================================================================
