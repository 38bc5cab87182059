------------------------------- MODULE Choice -------------------------------
(***************************************************************************)
(* Choices of the environment. Exhaustive runs (Sampled = FALSE) explore   *)
(* every element; simulation runs draw a few elements of the large sets    *)
(* instead of enumerating all the successors of a state.                   *)
(***************************************************************************)
EXTENDS Randomization, TLC, Naturals
CONSTANT Sampled
Pick(S) == IF Sampled THEN RandomSubset(1, S) ELSE S
PickSome(S) == IF Sampled THEN RandomSubset(4, S) ELSE S

(* Sequences of length n, entry by entry: their number may be huge. *)
AnySeq(n, S) == TLCEval([i \in 1..n |-> RandomElement(S)])
PickSeq(n, S) == IF Sampled THEN {AnySeq(n, S)} ELSE [1..n -> S]
AnyRows(m, d, S) == TLCEval([i \in 1..m |-> AnySeq(d, S)])
PickRows(m, d, S) == IF Sampled THEN {AnyRows(m, d, S)} ELSE [1..m -> [1..d -> S]]
PickMany(q, n, S) == IF Sampled THEN TLCEval({AnySeq(n, S) : k \in 1..q}) ELSE [1..n -> S]
PickSeqs(n, S) == PickMany(4, n, S)
=============================================================================
