----------------------------- MODULE SamplerOps -----------------------------
(***************************************************************************)
(* Samplers.  A configuration k is                                         *)
(*   fam   family: NN, NI, NB (classification), NV, PN, PL (no labels),    *)
(*         UC, LC (noise model of a transport cost)                        *)
(*   d, l  dimensions of the data and of the labels                        *)
(*   spr   how the data spread is given: "sigma", "tril", "cov", "prec"    *)
(*   sh    sigma, in halves                                                *)
(*   lspr, lh  the same for the labels (NN)                                *)
(*   pq    probability of a switch, in quarters (NB)                       *)
(*   id, pow, typ, kap  the cost (UC, LC); kap = -1: infinite, -2: 1/2     *)
(* Seeds: 0 = none given, -1 = the seed zero, otherwise the seed.          *)
(* Variances are in quarters.                                              *)
(***************************************************************************)
EXTENDS Num

Labelled(k) == k.fam \in {"NN", "NI", "NB", "LC"}
CostFam(k) == k.fam \in {"UC", "LC"}

(* The matrices used when the spread is not a plain scale.                 *)
(* T T' with T lower bidiagonal, diagonal 1, 2, 1, 2... and ones below     *)
(* (2 in dimension 1).                                                     *)
Diag(d, i) == IF d = 1 \/ i % 2 = 0 THEN 2 ELSE 1
Tril(d, i, j) == IF i = j THEN Diag(d, i) ELSE IF i = j + 1 THEN 1 ELSE 0
Matrix(d) == [i \in 1..d |-> [j \in 1..d |->
                 SumSeq([q \in 1..d |-> Tril(d, i, q) * Tril(d, j, q)])]]
Cov4(spr, h, d, i, j) ==
    IF spr = "sigma" THEN IF i = j THEN h * h ELSE 0 ELSE 4 * Matrix(d)[i][j]

LaplaceNoise(k) == CostFam(k) /\ k.pow = 1 /\ k.typ = 1
DataCov4(k, i, j) ==
    IF LaplaceNoise(k) THEN IF i = j THEN 2 * k.sh * k.sh ELSE 0
    ELSE Cov4(k.spr, k.sh, k.d, i, j)

FrozenLabels(k) ==
    k.fam = "NI" \/ (k.fam = "LC" /\ (k.id = "NC" \/ k.kap = -1))
(* Scale of the label noise of a cost, in quarters (sigma or sigma/kappa). *)
LabScale4(k) == IF k.pow # 1 THEN 2 * k.sh
                ELSE IF k.kap = -2 THEN 4 * k.sh ELSE (2 * k.sh) \div k.kap
(* Variance of a label coordinate, in sixteenths. *)
LabCov16(k, i, j) ==
    IF k.fam = "NN" THEN 4 * Cov4(k.lspr, k.lh, k.l, i, j)
    ELSE IF i # j THEN 0
    ELSE LabScale4(k) * LabScale4(k) * (IF LaplaceNoise(k) THEN 2 ELSE 1)

----------------------------------------------------------------------------
(* Noise streams.  g describes the generator feeding the draws: who seeded *)
(* it last, with what, and what was drawn since.  Draws are comparable     *)
(* (Key) when the generator was seeded by the drawing object itself, or by *)
(* the user for unseeded objects, and nobody else drew in between.         *)

NoStream == [by |-> "nobody", v |-> 0, drawn |-> <<>>]
Seeded(by, v) == [by |-> by, v |-> v, drawn |-> <<>>]
Drawn(g, o, n, m) ==
    IF \A i \in 1..Len(g.drawn) : g.drawn[i].o = o
    THEN [g EXCEPT !.drawn = Append(@, [o |-> o, n |-> n, m |-> m])]
    ELSE [g EXCEPT !.by = "nobody"]
Comparable(g, o, seed) ==
    /\ \A i \in 1..Len(g.drawn) : g.drawn[i].o = o
    /\ IF seed = 0 THEN g.by = "user" ELSE g.by = o
Key(g, seed, n, m) ==
    <<IF seed = 0 THEN "user" ELSE "own", g.v,
      [i \in 1..Len(g.drawn) |-> <<g.drawn[i].n, g.drawn[i].m>>], n, m>>

(* State: g and the objects [seed, m] (seed 0 = none; m = 0: not built).   *)
NextG(g, objs, e) ==
    CASE e.op = "build" -> IF e.seed = 0 THEN g ELSE Seeded(e.o, e.seed)
      [] e.op = "reset" -> IF objs[e.o].seed = 0 THEN g ELSE Seeded(e.o, objs[e.o].seed)
      [] e.op \in {"draw", "next"} -> Drawn(g, e.o, e.n, objs[e.o].m)
      [] e.op = "seed" -> Seeded("user", e.v)
      [] e.op \in {"burn", "stat"} -> NoStream
NextObjs(objs, e) ==
    CASE e.op = "build" -> [objs EXCEPT ![e.o] = [seed |-> e.seed, m |-> e.m]]
      [] e.op = "reset" -> [objs EXCEPT ![e.o].m = e.m]
      [] OTHER -> objs
Objs0 == [o \in {"a", "b"} |-> [seed |-> 0, m |-> 0]]
=============================================================================
