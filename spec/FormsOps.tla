------------------------------ MODULE FormsOps ------------------------------
(***************************************************************************)
(* Representations of the same numbers: [box, typ, lay].                   *)
(*   box  array, list (nested lists), frame (a table or a column of pandas)*)
(*   typ  f8, f4, i8, i4, i1 (signed), u1, u4 (unsigned), b1 (boolean),    *)
(*        obj (Python numbers)                                             *)
(*   lay  c, fortran, strided (every other row of a larger array),         *)
(*        reversed (negative strides), readonly                            *)
(* A representation holds the values it can hold exactly: fractions (in    *)
(* 1/den) are held by real types only.  Parameters are python numbers, or  *)
(* numpy64, numpy32 scalars.                                               *)
(***************************************************************************)
EXTENDS Integers

Plain == [box |-> "array", typ |-> "f8", lay |-> "c"]
Unsigned(t) == t \in {"u1", "u4"}
Lowest(t, low) == IF Unsigned(t) \/ t = "b1" THEN 0 ELSE low
Highest(t, high) == IF t = "b1" THEN 1 ELSE high
Holds(t, v) == v >= Lowest(t, v) /\ v <= Highest(t, v)
Real(t) == t \in {"f8", "f4", "obj"}
(* Layouts are those of arrays. *)
Proper(f) == f.box # "array" => f.lay = "c"
=============================================================================
