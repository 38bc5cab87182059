---------------------------- MODULE DualLossOps ----------------------------
(***************************************************************************)
(* What a robust loss object is worth.                                     *)
(*                                                                         *)
(* A configuration c describes the object under test:                      *)
(*   d, lab        data dimension, with labels or not                      *)
(*   id, pow, typ, kap  cost identity ("NC"/"NLC"), power (1, 2), norm     *)
(*                 type (1, 2, 0 = sup), label penalty (0, 1, 3, -1 = inf, *)
(*                 -3 = 1/3)                                               *)
(*   scheme        "post": samples drawn at each evaluation                *)
(*                 "pre":  samples given by the caller and remembered      *)
(*   red           "mean" / "sum" / "none"                                 *)
(*   e0            regularisation, in units of 1/ln 2                      *)
(*   r2, rs        the radius is r2 / (2 10^rs)                            *)
(*   f32           are the tensors of simple precision                     *)
(*   l2            l2 strength                                             *)
(*   w, b, a, v    the user's model  L(x,y) = <w,x> + b + a|x|^2 + v y     *)
(*   is, s         importance sampling, noise variance in units 1/(2 ln 2) *)
(*                                                                         *)
(* An event e is one evaluation of the object:                             *)
(*   bx, by        the batch (points, labels)                              *)
(*   zo, zy        offsets of the samples given by the caller (<<>>: none) *)
(*   lam           value of the multiplier at that time                    *)
(*   n             number of samples the object is configured to draw      *)
(*   reset         is the sampler re-centred on the batch                  *)
(*                                                                         *)
(* The object's state st is [centre, stored]: the batch its sampler is     *)
(* centred on, and the samples it remembers.                               *)
(***************************************************************************)
EXTENDS Num

----------------------------------------------------------------------------
(* The user's loss and the transport cost.                                 *)

ThetaSq(c) == SumSq(c.w) + c.b * c.b + c.a * c.a

PrimalLoss(c, x, y) ==
    Dot(c.w, x) + c.b + c.a * SumSq(x) + c.v * y + (c.l2 \div 2) * ThetaSq(c)

NormOf(typ, u) ==
    CASE typ = 1 -> SumSeq([i \in 1..Len(u) |-> Abs(u[i])])
      [] typ = 0 -> MaxSeq([i \in 1..Len(u) |-> Abs(u[i])])
      [] typ = 2 -> Isqrt(SumSq(u))
NormIsInt(typ, u) == typ # 2 \/ IsSquare(SumSq(u))

DataOnly(c) == c.id = "NC" \/ c.kap = 0

(* The label penalty is KapNum / KapDen, unless infinite. *)
KapNum(c) == IF c.kap = -3 THEN 1 ELSE c.kap
KapDen(c) == IF c.kap = -3 THEN 3 ELSE 1

(* Sixteen times the transport cost. *)
Cost16(c, x, y, zx, zy) ==
    LET dx == Sub(x, zx)
        dy == Abs(y - zy)
    IN  CASE DataOnly(c) /\ c.typ = 2 /\ c.pow = 2 -> 16 * SumSq(dx)
          [] DataOnly(c) /\ ~(c.typ = 2 /\ c.pow = 2) ->
                16 * Pow(NormOf(c.typ, dx), c.pow)
          [] ~DataOnly(c) /\ c.kap = -1 -> 16 * Pow(dy, c.pow)
          [] ~DataOnly(c) /\ c.kap # -1 ->
                Pow(KapDen(c) * NormOf(c.typ, dx) + KapNum(c) * dy, c.pow)
                    * (16 \div Pow(KapDen(c) + KapNum(c), c.pow))
CostIsExact(c, x, zx) ==
    \/ DataOnly(c) /\ c.typ = 2 /\ c.pow = 2
    \/ NormIsInt(c.typ, Sub(x, zx))

----------------------------------------------------------------------------
(* The robust objective, given the samples z[j][i] = [x, y] of point i.    *)

M(e) == Len(e.bx)
Lab(c, e, i) == IF c.lab THEN e.by[i] ELSE 0

Expo16(c, e, z, i, j) ==    \* 16 e0 times the exponent, in powers of two
    16 * PrimalLoss(c, z[j][i].x, z[j][i].y)
      - e.lam * Cost16(c, e.bx[i], Lab(c, e, i), z[j][i].x, z[j][i].y)

Expo(c, e, z, corr, i) ==
    TLCEval([j \in 1..Len(z) |-> Expo16(c, e, z, i, j) \div (16 * c.e0) + corr[j][i]])

NoCorr(c, e, z) == TLCEval([j \in 1..Len(z) |-> [i \in 1..M(e) |-> 0]])

(* One term per data point, in micro: e0 log2 mean_j 2^k. *)
Term(c, e, z, corr, i) == c.e0 * Log2Mean(Expo(c, e, z, corr, i))

(* Radius to the power of the cost, in 1/unit (below one unit from 10^-5). *)
RadPow(c, k, unit) ==
    IF c.rs * c.pow > 8 THEN 0
    ELSE IF c.rs = 0 THEN k * Pow(c.r2, c.pow) * (unit \div Pow2(c.pow))
    ELSE RDiv(k * Pow(c.r2, c.pow) * unit, Pow(2 * Pow10(c.rs), c.pow))

FirstTerm(c, e) == RadPow(c, e.lam, MICRO)

Reduce(red, terms) ==      \* a sequence of one or several values
    CASE red = "mean" -> <<SumSeq(terms) \div Len(terms)>>
      [] red = "sum"  -> <<SumSeq(terms)>>
      [] red = "none" -> TLCEval(terms)

RobustValue(c, e, z0, corr0) ==
    With(z0, LAMBDA z : With(corr0, LAMBDA corr :
      With(Reduce(c.red, [i \in 1..M(e) |-> Term(c, e, z, corr, i)]), LAMBDA r :
        [i \in 1..Len(r) |-> FirstTerm(c, e) + r[i]])))

ErmValue(c, e) ==
    Reduce(c.red, [i \in 1..M(e) |->
                     MICRO * PrimalLoss(c, e.bx[i], Lab(c, e, i))])

(* All quantities are integers small enough for the tables. *)
Exact(c, e, z, corr) ==
    /\ \A i \in 1..M(e) : \A j \in 1..Len(z) :
         /\ CostIsExact(c, e.bx[i], z[j][i].x)
         /\ Divides(16 * c.e0, Expo16(c, e, z, i, j))
    /\ \A i \in 1..M(e) : With(Expo(c, e, z, corr, i), LAMBDA ks :
         ExpSumFits(ks) /\ \A j \in 1..Len(ks) : Abs(ks[j]) * c.e0 < Min2(800, 2000 \div Len(ks)))
    /\ SumSeq([i \in 1..M(e) |-> Abs(Expo(c, e, z, corr, i)[1])]) * c.e0 < 900

----------------------------------------------------------------------------
(* Derivatives of the same expression (myria).  With red = "none" the      *)
(* harness differentiates the sum of the outputs.                          *)

Weight(ks, j) == Pow2(ks[j] - MinSeq(ks))

(* Average of q[j] under the weights 2^k, in 1/scale of unit. *)
Tilted(ks, q, scale) ==
    RDiv(scale * SumSeq([j \in 1..Len(ks) |-> Weight(ks, j) * q[j]]), ExpSum(ks))

Outer(c, e, q) == IF c.red = "mean" THEN RDiv(SumSeq(q), Len(q)) ELSE SumSeq(q)
NbFirst(c, e) == IF c.red = "none" THEN M(e) ELSE 1

GradLam(c, e, z, corr) ==
    LET q == [i \in 1..M(e) |->
                 LET ks == Expo(c, e, z, corr, i)
                 IN  Tilted(ks, [j \in 1..Len(z) |->
                         Cost16(c, e.bx[i], Lab(c, e, i), z[j][i].x, z[j][i].y)],
                         MYRIA \div 16)]
    IN  RadPow(c, NbFirst(c, e), MYRIA) - Outer(c, e, q)

GradTheta(c, e, z, corr) ==      \* <<w_1..w_d, b, a>>
    [t \in 1..(c.d + 2) |->
       Outer(c, e, [i \in 1..M(e) |->
         LET ks == Expo(c, e, z, corr, i) IN
         Tilted(ks, [j \in 1..Len(z) |->
             CASE t <= c.d     -> z[j][i].x[t] + c.l2 * c.w[t]
               [] t = c.d + 1  -> 1 + c.l2 * c.b
               [] t = c.d + 2  -> SumSq(z[j][i].x) + c.l2 * c.a],
             MYRIA)])]

ErmGradTheta(c, e) ==
    [t \in 1..(c.d + 2) |->
       Outer(c, e, [i \in 1..M(e) |-> MYRIA *
             (CASE t <= c.d     -> e.bx[i][t] + c.l2 * c.w[t]
                [] t = c.d + 1  -> 1 + c.l2 * c.b
                [] t = c.d + 2  -> SumSq(e.bx[i]) + c.l2 * c.a)])]

----------------------------------------------------------------------------
(* Importance sampling.                                                    *)

GradX(c, x) == [t \in 1..c.d |-> c.w[t] + 2 * c.a * x[t]]
LabelMoves(c) == c.lab /\ c.id = "NLC" /\ c.kap \notin {0, -1}

DispExact(c, e) ==
    e.lam > 0 =>
      /\ \A i \in 1..M(e) : \A t \in 1..c.d : Divides(2 * e.lam, GradX(c, e.bx[i])[t])
      /\ LabelMoves(c) => Divides(2 * e.lam * KapNum(c), c.v * KapDen(c))

DispX(c, e, i) == [t \in 1..c.d |-> GradX(c, e.bx[i])[t] \div (2 * e.lam)]
DispY(c, e) == IF LabelMoves(c) THEN (c.v * KapDen(c)) \div (2 * e.lam * KapNum(c)) ELSE 0

Moved(c, e, z) ==
    TLCEval([j \in 1..Len(z) |-> [i \in 1..M(e) |->
        [x |-> Add(z[j][i].x, DispX(c, e, i)), y |-> z[j][i].y + DispY(c, e)]]])

(* log2 of the density ratio: gaussian noise, 2 sigma^2 = s / ln 2. *)
CorrNum(c, e, z, i, j) ==
    LET ox == Sub(z[j][i].x, e.bx[i])
        oy == z[j][i].y - Lab(c, e, i)
    IN  SumSq(ox) - SumSq(Add(ox, DispX(c, e, i)))
        + (IF LabelMoves(c)
           THEN oy * oy - (oy + DispY(c, e)) * (oy + DispY(c, e)) ELSE 0)
Corr(c, e, z) ==
    TLCEval([j \in 1..Len(z) |-> [i \in 1..M(e) |-> CorrNum(c, e, z, i, j) \div c.s]])
CorrExact(c, e, z) ==
    \A j \in 1..Len(z) : \A i \in 1..M(e) : Divides(c.s, CorrNum(c, e, z, i, j))

(* Importance sampling is for squared euclidean costs only. *)
IsOn(c) == c.is /\ c.pow = 2 /\ c.typ = 2

AllGradsNonZero(c, e) ==
    /\ \A i \in 1..M(e) : SumSq(GradX(c, e.bx[i])) > 0
    /\ c.lab => c.v # 0

----------------------------------------------------------------------------
(* The values an evaluation may return, given the samples it uses.  There  *)
(* is one, except when some (not all) gradients vanish under importance    *)
(* sampling: such a sample may count as moved by zero or make the whole    *)
(* batch fall back on unmoved samples.                                     *)

RobustValues(c, e, z0) ==
    UNION {LET plain == RobustValue(c, e, z, NoCorr(c, e, z))
               moved == RobustValue(c, e, Moved(c, e, z), Corr(c, e, z))
           IN  IF ~IsOn(c) \/ e.lam = 0 THEN {plain}
               ELSE IF AllGradsNonZero(c, e) THEN {moved} ELSE {plain, moved}
           : z \in {z0}}

Representable(c, e, z0) ==
    \A z \in {z0} : \A no \in {NoCorr(c, e, z)} :
      /\ Exact(c, e, z, no)
      /\ (IsOn(c) /\ e.lam > 0) =>
           /\ DispExact(c, e)
           /\ CorrExact(c, e, z)
           /\ \A mv \in {Moved(c, e, z)}, cr \in {Corr(c, e, z)} :
                  Exact(c, e, mv, cr)

(* Samples from the offsets of the event, around some points.  With the    *)
(* "pre" scheme the caller gives these samples, with the "post" scheme the *)
(* sampler of the object is scripted to draw these offsets.                *)
Twist(i) == IF i % 2 = 1 THEN 1 ELSE -1
SamplesAt(c, cx, cy, e) ==
    TLCEval([j \in 1..Len(e.zo) |-> [i \in 1..Len(cx) |->
        [x |-> Add(cx[i], Scale(Twist(i), e.zo[j])),
         y |-> IF c.lab THEN cy[i] + Twist(i) * e.zy[j] ELSE 0]]])

----------------------------------------------------------------------------
(* State of the object.                                                    *)

InitState(c) == [cx |-> c.bx0, cy |-> c.by0, stored |-> <<>>]

NextState(st, c, e) ==
    [cx |-> IF c.scheme = "post" /\ e.reset THEN e.bx ELSE st.cx,
     cy |-> IF c.scheme = "post" /\ e.reset THEN e.by ELSE st.cy,
     stored |-> IF c.scheme = "pre" /\ e.given THEN SamplesAt(c, e.bx, e.by, e)
                ELSE st.stored]

(* The samples an evaluation uses. *)
Used(st, c, e) ==
    LET st1 == NextState(st, c, e) IN
    IF c.scheme = "post" THEN SamplesAt(c, st1.cx, st1.cy, e) ELSE st1.stored

(* An evaluation must be refused when the radius is negative, or when no   *)
(* samples were ever given to an object that never draws any.              *)
MustFail(st, c, e) ==
    \/ c.r2 < 0
    \/ c.scheme = "pre" /\ NextState(st, c, e).stored = <<>>

(* The caller's side: is the event meaningful for the object? *)
Meaningful(st, c, e) ==
    /\ Len(e.by) = IF c.lab THEN M(e) ELSE 0
    /\ c.scheme = "post" => ~e.given /\ Len(e.zo) = e.n
    /\ c.scheme = "pre"  => e.reset /\ (e.given = (e.zo # <<>>))
    /\ Len(e.zy) = IF c.lab THEN Len(e.zo) ELSE 0
    /\ ~e.reset => Len(st.cx) = M(e)
    /\ (c.scheme = "pre" /\ ~e.given /\ st.stored # <<>>) =>
          Len(st.stored[1]) = M(e)
    \* a null radius needs no samples, an object without any refuses to work
    /\ (c.r2 = 0 /\ c.scheme = "pre") => (e.given \/ st.stored # <<>>)
    /\ IsOn(c) =>
               /\ e.reset
               /\ c.scheme = "pre" => e.bx = c.bx0 /\ e.by = c.by0
               \* frozen labels are never noisy
               /\ (c.lab /\ ~LabelMoves(c)) =>
                     \A j \in 1..Len(e.zy) : e.zy[j] = 0
    /\ c.r2 = 0 =>
         Abs(SumSeq([i \in 1..M(e) |-> PrimalLoss(c, e.bx[i], Lab(c, e, i))])) < 900
    /\ (c.r2 > 0 /\ ~MustFail(st, c, e)) => Representable(c, e, Used(st, c, e))

Outcomes(st, c, e) ==
    IF c.r2 = 0 THEN {ErmValue(c, e)} ELSE RobustValues(c, e, Used(st, c, e))
============================================================================
