------------------------------- MODULE Codes -------------------------------
(* All the strings made of cost-code parts, through every decoder.         *)
EXTENDS CodeOps, Choice, Json
CONSTANTS Engines, Ids, Pows, Typs, Kaps, Extras, Decoders, Lengths

VARIABLES ph, n, first, parts, dec, lab
vars == <<ph, n, first, parts, dec, lab>>

Init == ph = "start" /\ n = 0 /\ first = 1 /\ parts = <<>>
        /\ dec \in Decoders /\ lab \in {TRUE, FALSE}

NoCode == /\ ph = "start" /\ parts = <<>>
          /\ parts' = <<"none">> /\ ph' = "last" /\ UNCHANGED <<n, first, dec, lab>>

(* A code with a missing engine starts at the identity. *)
Start == /\ ph = "start"
         /\ n' \in Lengths /\ ph' = "grow"
         /\ first' \in IF n' <= 4 THEN {1, 2} ELSE {1}
         /\ parts' = <<>> /\ UNCHANGED <<dec, lab>>
Slot == LET i == Len(parts) + first IN
    CASE i = 1 -> Engines [] i = 2 -> Ids [] i = 3 -> Pows [] i = 4 -> Typs
      [] i = 5 -> Kaps [] OTHER -> Extras
Grow == /\ ph = "grow" /\ Len(parts) < n
        /\ \E x \in Slot : parts' = Append(parts, x)
        /\ UNCHANGED <<ph, n, first, dec, lab>>
Stop == /\ ph = "grow" /\ Len(parts) = n
        /\ ph' = "last" /\ UNCHANGED <<n, first, parts, dec, lab>>
Finish == /\ ph = "last"
          /\ PrintT("SCEN " \o ToJson([parts |-> parts, dec |-> dec, lab |-> lab]))
          /\ ph' = "done" /\ UNCHANGED <<n, first, parts, dec, lab>>
Next == NoCode \/ Start \/ Grow \/ Stop \/ Finish
Spec == Init /\ [][Next]_vars

(* The decoders agree on what they both understand. *)
Agree == ph = "done" =>
    LET a == Den("str", parts, lab)
        b == Den("parse", parts, lab)
    IN  a.id \notin {"refused", "free"} => a = b
Total == ph = "done" =>
    LET a == Den(dec, parts, lab) IN a.id \in {"refused", "free", "NC", "NLC"}
=============================================================================
