---------------------------- MODULE SamplersTrace ----------------------------
(***************************************************************************)
(* Judges recorded lives of samplers, records [i, k, e, o], i = 1 for the  *)
(* first event of a life.  The noise itself is learned: the first draw of  *)
(* a key defines it, later comparable draws must repeat it.                *)
(*   draw: o = [raised, shape, lshape, off, lab]   offsets to the centre   *)
(*   stat: o = [raised, n, mean, cov, abs, lmean, lcov, labs, lexact,      *)
(*              lsym, flips]                                               *)
(***************************************************************************)
EXTENDS SamplerOps, TraceLib
VARIABLES l, g, objs, memo
vars == <<l, g, objs, memo>>

SeqClose(a, b, tol) ==
    Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i], tol)

DrawClauses(k, e, o, gg, ob, mm) ==
    LET m == ob[e.o].m
        key == Key(gg, ob[e.o].seed, e.n, m)
        noise == [off |-> o.off, lab |-> o.lab]
    IN  (IF o.shape = <<e.n, m, k.d>> THEN {} ELSE {"shape"})
        \cup (IF Labelled(k) THEN IF o.lshape = <<e.n, m, k.l>> THEN {} ELSE {"label-shape"}
              ELSE IF o.lshape = <<>> THEN {} ELSE {"label-shape"})
        \cup (IF FrozenLabels(k) /\ \E i \in 1..Len(o.lab) : o.lab[i] # 0
              THEN {"frozen-labels-moved"} ELSE {})
        \cup (IF k.fam = "NB" /\ \E i \in 1..Len(o.lab) : Abs(o.lab[i]) # MICRO
              THEN {"label-not-a-switch"} ELSE {})
        \cup (IF Comparable(gg, e.o, ob[e.o].seed) /\ key \in DOMAIN mm
              THEN IF SeqClose(mm[key].off, noise.off, 20) /\ SeqClose(mm[key].lab, noise.lab, 20)
                   THEN {} ELSE {"noise-differs"}
              ELSE {})

(* Six standard errors of moments over n draws, in 1/1000 of the variance. *)
SmallMean(v, bound) == Abs(v) < 40000 /\ v * v <= bound
Permille(n) == (9000 \div Isqrt(n)) + 2
StatClauses(k, o) ==
    LET big(i) == DataCov4(k, i, i)
        tol(i, j) == (Permille(o.n) * Max2(big(i), big(j)) * (IF LaplaceNoise(k) THEN 3 ELSE 1)) \div 4
        lbig(i) == LabCov16(k, i, i)
        ltol(i, j) == (Permille(o.n) * Max2(lbig(i), lbig(j)) * (IF LaplaceNoise(k) THEN 3 ELSE 1)) \div 16
        noisy == Labelled(k) /\ ~FrozenLabels(k) /\ k.fam # "NB"
    IN  \* mean and covariance, in milli
        (IF \A i \in 1..k.d : SmallMean(o.mean[i], ((40 * big(i)) \div 4) * ((1000000) \div o.n))
         THEN {} ELSE {"mean"})
        \cup (IF \A i \in 1..k.d : \A j \in 1..k.d :
                   Close(o.cov[i][j], 250 * DataCov4(k, i, j), tol(i, j) + 2)
              THEN {} ELSE {"scale"})
        \* the shape of the noise of a cost: E|x| = b (Laplace) or 0.798 sigma
        \cup (IF CostFam(k) /\ \E i \in 1..k.d :
                   ~Close(o.abs[i], (IF LaplaceNoise(k) THEN 500 ELSE 399) * k.sh,
                          5 + k.sh * (Permille(o.n) \div 2))
              THEN {"noise-family"} ELSE {})
        \cup (IF noisy /\ ~(\A i \in 1..k.l : SmallMean(o.lmean[i],
                              ((40 * lbig(i)) \div 16 + 1) * (1000000 \div o.n)))
              THEN {"label-mean"} ELSE {})
        \cup (IF noisy /\ ~(\A i \in 1..k.l : \A j \in 1..k.l :
                   Close(o.lcov[i][j], (1000 * LabCov16(k, i, j)) \div 16, ltol(i, j) + 2))
              THEN {"label-scale"} ELSE {})
        \cup (IF noisy /\ o.lexact THEN {"labels-do-not-move"} ELSE {})
        \cup (IF FrozenLabels(k) /\ ~o.lexact THEN {"frozen-labels-moved"} ELSE {})
        \cup (IF k.fam = "NB" /\ ~(o.lsym /\ Close(o.flips, 250 * k.pq,
                     IF k.pq \in {0, 4} THEN 0 ELSE 3000 \div Isqrt(o.n) + 1))
              THEN {"switch-probability"} ELSE {})

Clauses(r, gg, ob, mm) ==
    IF r.o.raised # "" THEN {"raised"}
    ELSE CASE r.e.op \in {"draw", "next"} -> DrawClauses(r.k, r.e, r.o, gg, ob, mm)
           [] r.e.op = "stat" -> StatClauses(r.k, r.o)
           [] OTHER -> {}

NextMemo(r, gg, ob, mm) ==
    IF r.o.raised = "" /\ r.e.op \in {"draw", "next"}
       /\ Comparable(gg, r.e.o, ob[r.e.o].seed)
    THEN LET key == Key(gg, ob[r.e.o].seed, r.e.n, ob[r.e.o].m)
         IN  IF key \in DOMAIN mm THEN mm
             ELSE mm @@ (key :> [off |-> r.o.off, lab |-> r.o.lab])
    ELSE mm

Init == l = 1 /\ g = NoStream /\ objs = Objs0 /\ memo = <<>>
Step ==
    /\ l <= Len(Log)
    /\ LET r == Log[l]
           gg == IF r.i = 1 THEN NoStream ELSE g
           ob == IF r.i = 1 THEN Objs0 ELSE objs
           mm == IF r.i = 1 THEN <<>> ELSE memo
       IN  /\ Report(l, Clauses(r, gg, ob, mm))
           /\ g' = NextG(gg, ob, r.e)
           /\ objs' = NextObjs(ob, r.e)
           /\ memo' = NextMemo(r, gg, ob, mm)
    /\ l' = l + 1
Spec == Init /\ [][Step]_vars
=============================================================================
