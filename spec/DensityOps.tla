----------------------------- MODULE DensityOps -----------------------------
(***************************************************************************)
(* Log-densities of the samplers at integer points, in micro.              *)
(***************************************************************************)
EXTENDS SamplerOps

HALFLN2PI == 918939
LN2 == 693147
(* ln of a scale of h quarters, h a power of two. *)
KnownScale(h) == h \in {1, 2, 4, 8, 16, 32, 64, 128}
LnQuarters(h) == ((CHOOSE e \in 0..7 : Pow2(e) = h) - 2) * LN2

(* Plain scale of h quarters: (dz/s)^2/2 = 8 dz^2/h^2. *)
GaussIso(h, dz) == -RDiv(8 * MICRO * SumSq(dz), h * h)
                   - Len(dz) * (LnQuarters(h) + HALFLN2PI)
(* Matrix spread: whiten by the triangular factor T, T r = dz.             *)
RECURSIVE White(_, _)
White(dz, i) ==          \* 2^i times the i-th whitened coordinate
    LET below == IF i = 1 THEN 0 ELSE 2 * White(dz, i - 1)
    IN  (Pow2(i) * dz[i] - below) \div Diag(Len(dz), i)
HalfSquare(w, i) ==      \* (w / 2^i)^2 / 2
    LET q == 2 * Pow2(2 * i) IN MICRO * ((w * w) \div q) + RDiv(MICRO * ((w * w) % q), q)
GaussMat(dz) ==
    LET d == Len(dz) IN
    -SumSeq([i \in 1..d |-> HalfSquare(White(dz, i), i)])
      - SumSeq([i \in 1..d |-> IF Diag(d, i) = 2 THEN LN2 ELSE 0]) - d * HALFLN2PI
Laplace(h, dz) ==       \* -|dz|/b - ln(2b)
    -RDiv(4 * MICRO * SumSeq([i \in 1..Len(dz) |-> Abs(dz[i])]), h)
      - Len(dz) * (LnQuarters(h) + LN2)

DataLp(k, dz) ==
    IF LaplaceNoise(k) THEN Laplace(2 * k.sh, dz)
    ELSE IF k.spr = "sigma" THEN GaussIso(2 * k.sh, dz) ELSE GaussMat(dz)
LabLp(k, dy) ==
    IF FrozenLabels(k) THEN 0
    ELSE IF k.fam = "NN" THEN IF k.lspr = "sigma" THEN GaussIso(2 * k.lh, dy) ELSE GaussMat(dy)
    ELSE IF LaplaceNoise(k) THEN Laplace(LabScale4(k), dy) ELSE GaussIso(LabScale4(k), dy)

(* Frozen labels somewhere else than on their location. *)
Away(k, dy) == Labelled(k) /\ FrozenLabels(k) /\ \E c \in 1..Len(dy) : dy[c] # 0
NoLab(k) == ~Labelled(k)
Lp(k, dz, dy) == DataLp(k, dz) + (IF NoLab(k) THEN 0 ELSE LabLp(k, dy))
KnownLp(k) == (Labelled(k) /\ k.fam = "LC" /\ ~FrozenLabels(k)) => KnownScale(LabScale4(k))
(* Switched labels are judged by the re-centring law only. *)
Absolute(k) == k.fam # "NB"
============================================================================
