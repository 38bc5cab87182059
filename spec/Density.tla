------------------------------- MODULE Density -------------------------------
(***************************************************************************)
(* Log-densities asked to samplers: a sampler centred on (x, y), moved     *)
(* `moves` times before, is asked for the density of samples around its    *)
(* centre and around another centre (cx, cy).  For frozen labels the       *)
(* samples are all on their location, or some elsewhere (by thousandths if *)
(* `tiny') when `off'.                                                     *)
(***************************************************************************)
EXTENDS DensityOps, Choice, Json
CONSTANTS Fams, Dims, LabDims, Sprs, Shs, Lhs, CostKinds, Ms, Ns, Coords, Offs, Moves
VARIABLES ph, k, s
vars == <<ph, k, s>>

Init == ph = "family" /\ k = <<>> /\ s = <<>>
PickFamily ==
    /\ ph = "family"
    /\ \E fam \in Fams, d \in Pick(Dims), sh \in Pick(Shs) :
       \E spr \in IF fam \in {"LC", "UC"} \/ d > 4 THEN {"sigma"} ELSE Pick(Sprs),
          l \in IF fam \in {"NN", "NI", "LC"} THEN Pick(LabDims) ELSE {1},
          lspr \in IF fam = "NN" THEN Pick(Sprs) ELSE {"sigma"},
          lh \in IF fam = "NN" THEN Pick(Lhs) ELSE {2},
          ck \in IF fam = "UC" THEN Pick({t \in CostKinds : t[1] = "NC"})
                ELSE IF fam = "LC" THEN Pick(CostKinds) ELSE {<<"NC", 2, 2, 1>>} :
         /\ k' = [fam |-> fam, d |-> d, l |-> l, spr |-> spr, sh |-> sh, lspr |-> lspr,
                  lh |-> lh, pq |-> 1, id |-> ck[1], pow |-> ck[2], typ |-> ck[3],
                  kap |-> ck[4]]
         /\ KnownLp(k') = TRUE
    /\ ph' = "centres" /\ UNCHANGED s

Ys == IF k.fam = "NB" THEN {-1, 1} ELSE Coords
PickCentres ==
    /\ ph = "centres"
    /\ \E m \in Ms, n \in Ns, mv \in Moves, off \in {TRUE, FALSE}, tiny \in BOOLEAN :
       \E x \in PickRows(m, k.d, Coords), cx \in PickRows(m, k.d, Coords),
          y \in PickRows(m, k.l, Ys), cy \in PickRows(m, k.l, Ys) :
         /\ off => FrozenLabels(k) /\ Labelled(k)
         /\ tiny => off
         /\ s' = [m |-> m, n |-> n, moves |-> mv, off |-> off, tiny |-> tiny, x |-> x, y |-> y,
                  cx |-> cx, cy |-> cy, zo |-> <<>>, yo |-> <<>>]
    /\ ph' = "samples" /\ UNCHANGED k
(* Offsets to the centre: the same samples are re-centred by translation.  *)
LabOffsets == IF k.fam = "NB" THEN {-1, 1}
              ELSE IF FrozenLabels(k) THEN IF s.off THEN {0, 1, 2} ELSE {0} ELSE Offs
PickSample ==
    /\ ph = "samples" /\ Len(s.zo) < s.n * s.m
    /\ \E z \in PickSeq(k.d, Offs), t \in PickSeq(k.l, LabOffsets) :
         s' = [s EXCEPT !.zo = Append(@, z), !.yo = Append(@, t)]
    /\ UNCHANGED <<ph, k>>
Finish ==
    /\ ph = "samples" /\ Len(s.zo) = s.n * s.m
    /\ PrintT("SCEN " \o ToJson([k |-> k, s |-> s]))
    /\ ph' = "done" /\ UNCHANGED <<k, s>>
Next == PickFamily \/ PickCentres \/ PickSample \/ Finish
Spec == Init /\ [][Next]_vars

Law(P(_)) == (ph = "done" /\ Absolute(k)) => \A i \in 1..Len(s.zo) : P(i)
(* Densities are even and largest at the centre. *)
Even == Law(LAMBDA i : Lp(k, s.zo[i], s.yo[i]) = Lp(k, Scale(-1, s.zo[i]), Scale(-1, s.yo[i])))
PeakAtCentre == Law(LAMBDA i :
    Lp(k, s.zo[i], s.yo[i]) <= Lp(k, Zeros(k.d), Zeros(k.l)))
=============================================================================
