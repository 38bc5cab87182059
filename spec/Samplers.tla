------------------------------ MODULE Samplers ------------------------------
(***************************************************************************)
(* Lives of two samplers of the same configuration: built, re-centred,     *)
(* drawn from, with the user reseeding or using the global generator in    *)
(* between.  Lives end with an audit: the first sampler is re-centred and  *)
(* drawn from, then the second one is built afresh and drawn from.         *)
(***************************************************************************)
EXTENDS SamplerOps, Choice, Json
CONSTANTS Fams, Dims, LabDims, Sprs, Shs, Lhs, Pqs, CostKinds, Seeds, Ms, Ns, Steps, Stats
VARIABLES ph, k, g, objs, h
vars == <<ph, k, g, objs, h>>

Init == ph = "family" /\ k = <<>> /\ g = NoStream /\ objs = Objs0 /\ h = <<>>

PickFamily ==
    /\ ph = "family"
    /\ \E fam \in Fams, d \in Pick(Dims), sh \in Pick(Shs) :
       \E spr \in IF fam \in {"LC", "UC"} \/ d > 4 THEN {"sigma"} ELSE Pick(Sprs),
          l \in IF fam \in {"NN", "NI", "LC"} THEN Pick(LabDims) ELSE {1},
          lspr \in IF fam = "NN" THEN Pick(Sprs) ELSE {"sigma"},
          lh \in IF fam = "NN" THEN Pick(Lhs) ELSE {2},
          pq \in IF fam = "NB" THEN Pick(Pqs) ELSE {0},
          ck \in IF fam = "UC" THEN Pick({t \in CostKinds : t[1] = "NC"})
                ELSE IF fam = "LC" THEN Pick(CostKinds) ELSE {<<"NC", 2, 2, 1>>} :
         /\ k' = [fam |-> fam, d |-> d, l |-> l, spr |-> spr, sh |-> sh, lspr |-> lspr,
                  lh |-> lh, pq |-> pq, id |-> ck[1], pow |-> ck[2], typ |-> ck[3],
                  kap |-> ck[4]]
    /\ ph' = "live" /\ UNCHANGED <<g, objs, h>>

Do(e) == /\ g' = NextG(g, objs, e) /\ objs' = NextObjs(objs, e) /\ h' = Append(h, e)
         /\ UNCHANGED k
Built(o) == objs[o].m > 0
LastChance == Len(h) = Steps - 1 /\ ~Built("a")   \* "a" must exist for the audit
Live == ph = "live" /\ Len(h) < Steps /\ ~LastChance

Build == /\ ph = "live" /\ Len(h) < Steps /\ \E o \in IF LastChance THEN {"a"} ELSE {"a", "b"}, s \in Seeds, m \in Ms :
              Do([op |-> "build", o |-> o, seed |-> s, m |-> m])
         /\ UNCHANGED ph
Reset == /\ Live /\ \E o \in {"a", "b"}, m \in Ms :
              Built(o) /\ Do([op |-> "reset", o |-> o, m |-> m])
         /\ UNCHANGED ph
Draw == /\ Live /\ \E o \in {"a", "b"}, n \in Ns :
              Built(o) /\ Do([op |-> "draw", o |-> o, n |-> n])
        /\ UNCHANGED ph
Iterate == /\ Live /\ \E o \in {"a", "b"} :
              Built(o) /\ Do([op |-> "next", o |-> o, n |-> 1])
           /\ UNCHANGED ph
Seed == /\ Live /\ \E v \in {7, 8} : Do([op |-> "seed", v |-> v]) /\ UNCHANGED ph
Burn == /\ Live /\ Do([op |-> "burn"]) /\ UNCHANGED ph

(* The audit. *)
Audit1 == /\ ph = "live" /\ Len(h) = Steps /\ Built("a")
          /\ \E m \in Ms : Do(IF objs["a"].seed = 0 THEN [op |-> "seed", v |-> 7]
                              ELSE [op |-> "reset", o |-> "a", m |-> m])
          /\ ph' = "audit1"
Audit2 == /\ ph = "audit1" /\ \E n \in Ns : Do([op |-> "draw", o |-> "a", n |-> n])
          /\ ph' = "audit2"
Audit3 == /\ ph = "audit2"
          /\ Do(IF objs["a"].seed = 0 THEN [op |-> "seed", v |-> 7] ELSE [op |-> "burn"])
          /\ ph' = "audit3"
Audit4 == /\ ph = "audit3"
          /\ Do([op |-> "build", o |-> "b", seed |-> objs["a"].seed, m |-> objs["a"].m])
          /\ ph' = "audit4"
Audit5 == /\ ph = "audit4"
          /\ LET n == h[Len(h) - 2].n IN Do([op |-> "draw", o |-> "b", n |-> n])
          /\ ph' = IF Stats THEN "stat1" ELSE "last"
Stat1 == /\ ph = "stat1" /\ \E o \in {"a", "b"} : Do([op |-> "stat", o |-> o])
         /\ ph' = "last"
Finish == /\ ph = "last" /\ PrintT("SCEN " \o ToJson([k |-> k, h |-> h]))
          /\ ph' = "done" /\ UNCHANGED <<k, g, objs, h>>

Next == PickFamily \/ Build \/ Reset \/ Draw \/ Iterate \/ Seed \/ Burn
        \/ Audit1 \/ Audit2 \/ Audit3 \/ Audit4 \/ Audit5 \/ Stat1 \/ Finish
Spec == Init /\ [][Next]_vars

(* A stream seeded by an object carries that object's seed, and the audit  *)
(* compares two draws of the same key.                                     *)
StreamSeed == g.by \in {"a", "b"} => objs[g.by].seed \in {0, g.v}
(* After each seeding the stream is untouched. *)
FreshStream == (ph # "family" /\ h # <<>> /\ h[Len(h)].op = "seed") =>
                  g = Seeded("user", h[Len(h)].v)
(* The two draws of the audit are comparable and have the same key. *)
AuditMeaningful == ph = "audit4" =>
    /\ Comparable(g, "b", objs["b"].seed)
    /\ g.drawn = <<>>
    /\ g.v = IF objs["a"].seed = 0 THEN 7 ELSE objs["a"].seed
=============================================================================
