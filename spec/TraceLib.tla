------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Reading of the traces recorded from the implementation, and reporting.  *)
(* A trace is a sequence of JSON records, one per observed event.  The     *)
(* trace specifications step through it and compute, for every event, the  *)
(* set of violated clauses; they never block, so that one run names every  *)
(* discrepancy.  The driver reads the VIOL lines and checks that the whole *)
(* trace was consumed (postcondition).                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils, SequencesExt

Log == ndJsonDeserialize(IOEnv.TRACE)

Report(l, clauses) ==
    IF clauses = {} THEN TRUE
    ELSE PrintT("VIOL " \o ToJson([line |-> l, clauses |-> SetToSeq(clauses)]))

Consumed == TLCGet("stats").diameter = Len(Log) + 1
=============================================================================
