------------------------------ MODULE DualLoss ------------------------------
(***************************************************************************)
(* Life of a robust loss object: it is built from a configuration, then    *)
(* evaluated any number of times with changing batches, samples and        *)
(* multiplier.  Each complete behaviour is printed as a scenario that the  *)
(* harness replays on the implementation; DualLossTrace judges the log.    *)
(* The choices are made in several steps so that simulation can pick them  *)
(* independently.                                                          *)
(***************************************************************************)
EXTENDS DualLossOps, Choice, Json

CONSTANTS Costs,     \* set of <<id, power, type, kappa, labelled>>
          Dims, Schemes, Reds, E0s, R2s, L2s, ISs, Ss,
          Weights,   \* coefficients of the linear part
          Quads,     \* coefficients of the quadratic part
          LabCoefs,  \* coefficients of the label
          Coords,    \* coordinates of data points
          Offs,      \* coordinates of offsets
          Labels, LabOffs, Lams, Sizes, Ns, Resets, Reuse, Steps,
          Biases,    \* large ones come without l2 term
          RadScales, Floats

VARIABLES ph, c, st, h, e
vars == <<ph, c, st, h, e>>

Points(d) == [1..d -> Coords]
NoCfg == [d |-> 0]
NoEv == [n |-> 0]

Init == ph = "cost" /\ c = NoCfg /\ st = <<>> /\ h = <<>> /\ e = NoEv

PickCost ==
    /\ ph = "cost"
    /\ \E k \in Costs, d \in Dims, sch \in Schemes, red \in Reds :
         c' = [d |-> d, id |-> k[1], pow |-> k[2], typ |-> k[3], kap |-> k[4],
               lab |-> k[5], scheme |-> sch, red |-> red]
    /\ ph' = "hyper" /\ UNCHANGED <<st, h, e>>

PickHyper ==
    /\ ph = "hyper"
    /\ \E e0 \in E0s, r2 \in R2s, l2 \in L2s, is \in ISs, s \in Ss, rs \in RadScales,
          f32 \in Floats :
         c' = c @@ [e0 |-> e0, r2 |-> r2, l2 |-> l2, is |-> is, s |-> s, rs |-> rs,
                    f32 |-> f32]
    /\ ph' = "model" /\ UNCHANGED <<st, h, e>>

PickModel ==
    /\ ph = "model"
    /\ \E w \in PickSeq(c.d, Weights), a \in Quads,
          b \in {x \in Biases : Abs(x) > 1 => c.l2 = 0},
          v \in IF c.lab THEN LabCoefs ELSE {0} :
         c' = c @@ [w |-> w, b |-> b, a |-> a, v |-> v]
    /\ ph' = "first" /\ UNCHANGED <<st, h, e>>

PickFirstBatch ==
    /\ ph = "first"
    /\ \E m \in Pick(Sizes) : \E bx \in PickSeq(m, Points(c.d)),
                    by \in IF c.lab THEN PickSeq(m, Labels) ELSE {<<>>} :
         c' = c @@ [bx0 |-> bx, by0 |-> by]
    /\ st' = InitState(c')
    /\ ph' = "batch" /\ UNCHANGED <<h, e>>

PickBatch ==
    /\ ph = "batch" /\ Len(h) < Steps
    /\ \E lam \in Lams, reset \in Resets, n \in Ns :
       \/ e' = [bx |-> c.bx0, by |-> c.by0, lam |-> lam, reset |-> reset, n |-> n]
       \/ \E m \in Pick(Sizes) : \E bx \in PickSeq(m, Points(c.d)),
                       by \in IF c.lab THEN PickSeq(m, Labels) ELSE {<<>>} :
            e' = [bx |-> bx, by |-> by, lam |-> lam, reset |-> reset, n |-> n]
    /\ ph' = "eval" /\ UNCHANGED <<c, st, h>>

Evaluate ==
    /\ ph = "eval"
    /\ \E given \in (IF c.scheme = "post" THEN {FALSE}
                     ELSE IF Reuse THEN {TRUE, FALSE} ELSE {TRUE}) :
       LET n == IF c.scheme = "pre" /\ ~given THEN 0 ELSE e.n IN
       \E zo \in PickSeqs(n, [1..c.d -> Offs]),
          zy \in IF c.lab THEN PickSeqs(n, LabOffs) ELSE {<<>>} :
         LET ev == e @@ [zo |-> zo, zy |-> zy, given |-> given] IN
         /\ Meaningful(st, c, ev) = TRUE    \* a test, not an action to branch on
         /\ st' = NextState(st, c, ev)
         /\ h' = Append(h, ev)
    /\ ph' = "batch" /\ e' = NoEv /\ UNCHANGED c

Finish ==
    /\ ph = "batch" /\ Len(h) = Steps
    /\ PrintT("SCEN " \o ToJson([c |-> c, h |-> h]))
    /\ ph' = "done" /\ UNCHANGED <<c, st, h, e>>

Next == PickCost \/ PickHyper \/ PickModel \/ PickFirstBatch \/ PickBatch
        \/ Evaluate \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Laws of the objective, checked on every state of the model.             *)

Ran == ph = "done" /\ h # <<>>
Last == h[Len(h)]
(* State before the last event, for Used. *)
LastUsed == IF c.scheme = "post" THEN SamplesAt(c, st.cx, st.cy, Last)
            ELSE st.stored
Robust == Ran /\ c.r2 > 0 /\ LastUsed # <<>>

Per(i, z) == [j \in 1..Len(z) |->
                 (Expo16(c, Last, z, i, j) * 62500)]  \* micro

(* Log-mean-exp lies between the mean and the maximum of L - lam c. *)
JensenBounds ==
    Robust => \A i \in 1..M(Last) :
      LET z == LastUsed
          t == Term(c, Last, z, NoCorr(c, Last, z), i)
          per == Per(i, z)
      IN  /\ t <= MaxSeq(per) + 2
          /\ t * Len(per) >= SumSeq(per) - 2 * Len(per)

(* A larger multiplier never increases a term. *)
MonotoneInLam ==
    (Robust /\ Last.lam > 0) => \A i \in 1..M(Last) :
      LET z == LastUsed
          low == [Last EXCEPT !.lam = 0]
      IN  (Exact(c, low, z, NoCorr(c, low, z))) =>
            Term(c, low, z, NoCorr(c, low, z), i)
              >= Term(c, Last, z, NoCorr(c, Last, z), i) - 2

(* Samples that do not move give the empirical risk. *)
NoNoiseIsErm ==
    (Robust /\ \A j \in 1..Len(LastUsed) : \A i \in 1..M(Last) :
         LastUsed[j][i].x = Last.bx[i] /\ (c.lab => LastUsed[j][i].y = Last.by[i]))
    => LET v == RobustValue(c, Last, LastUsed, NoCorr(c, Last, LastUsed))
           r == ErmValue(c, Last)
       IN  \A i \in 1..Len(v) : Close(v[i], FirstTerm(c, Last) + r[i], 4)

(* The sum is the mean times the size, and the first term counts once. *)
ReductionsAgree ==
    Robust =>
      LET z == LastUsed
          none == RobustValue([c EXCEPT !.red = "none"], Last, z, NoCorr(c, Last, z))
          mean == RobustValue([c EXCEPT !.red = "mean"], Last, z, NoCorr(c, Last, z))[1]
          sum == RobustValue([c EXCEPT !.red = "sum"], Last, z, NoCorr(c, Last, z))[1]
          f == FirstTerm(c, Last)
      IN  /\ Close(SumSeq(none), M(Last) * mean, M(Last) + 1)
          /\ sum - f = SumSeq(none) - M(Last) * f

(* What the object remembers between evaluations.                          *)
StoredOnlyIfPre == Ran => (c.scheme = "post" => st.stored = <<>>)
CentreFollows == Ran => (c.scheme = "post" /\ Last.reset => st.cx = Last.bx)
PreNeverRecentres == Ran => (c.scheme = "pre" => st.cx = c.bx0)
=============================================================================
