---------------------------- MODULE DensityTrace ----------------------------
(* Judges recorded log-densities [k, s, o]; o = [raised, here, there,      *)
(* moved, same, plain, shape]: densities around the centre, around the     *)
(* other centre (samples translated there), of the sampler moved there,    *)
(* re-centred on the current centre, and around the other centre given     *)
(* without a dimension for the samples (labels of dimension one flat).     *)
EXTENDS DensityOps, TraceLib
VARIABLE l
SeqClose(a, b, tol) ==
    Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i], tol)
Want(k, s, i) == IF Away(k, s.yo[i]) THEN -1000000000 ELSE Lp(k, s.zo[i], s.yo[i])
Tol == 120
Ok(k, s, got) ==
    Len(got) = s.n * s.m /\ \A i \in 1..Len(got) : Close(got[i], Want(k, s, i), Tol)
Clauses(k, s, o) ==
    IF o.raised # "" THEN {"raised"}
    ELSE (IF o.shape = <<s.n, s.m, 1>> THEN {} ELSE {"shape"})
         \cup (IF ~Absolute(k) \/ Ok(k, s, o.here) THEN {} ELSE {"density"})
         \cup (IF ~Absolute(k) \/ Ok(k, s, o.there) THEN {} ELSE {"recentred-density"})
         \cup (IF SeqClose(o.there, o.moved, Tol) THEN {} ELSE {"recentred-is-not-moved"})
         \cup (IF SeqClose(o.there, o.plain, Tol) THEN {} ELSE {"recentred-on-plain-batch"})
         \cup (IF SeqClose(o.same, o.here, Tol) THEN {} ELSE {"recentred-on-itself"})
Init == l = 1
Step == /\ l <= Len(Log)
        /\ LET r == Log[l] IN Report(l, Clauses(r.k, r.s, r.o))
        /\ l' = l + 1
Spec == Init /\ [][Step]_l
=============================================================================
