------------------------------ MODULE CodeOps ------------------------------
(***************************************************************************)
(* Cost codes: sequences of parts joined by dashes.  Den(..) is the cost   *)
(* a code denotes: a record with id "NC"/"NLC", Rejected (an exception is  *)
(* due) or Free (not specified).  Numbers are carried in halves, -1 = infinite.  *)
(***************************************************************************)
EXTENDS Num

Halves == [x \in {"0", "0.5", "1", "1.0", "2", "2.0", "3", "inf", "1e2"} |->
    CASE x = "0" -> 0 [] x = "0.5" -> 1 [] x \in {"1", "1.0"} -> 2
      [] x \in {"2", "2.0"} -> 4 [] x = "3" -> 6 [] x = "inf" -> -1
      [] x = "1e2" -> 200]
IsNumber(x) == x \in DOMAIN Halves
DefaultKappa == -2          \* 10^8, in halves out of range

Rejected == [id |-> "refused"]
Free == [id |-> "free"]
(* dec: "str" (cost_from_str), "parse" (functional interface), "robustify" *)
Den(dec, parts, lab) ==
    LET n == Len(parts)
        noeng == n = 3 /\ dec # "str"
        p == IF noeng THEN <<"t">> \o parts ELSE parts
    IN  IF parts = <<"none">>
        THEN IF dec = "str" THEN Free
             ELSE [id |-> IF lab THEN "NLC" ELSE "NC", pow |-> 4, typ |-> 4,
                   kap |-> DefaultKappa]
        ELSE IF n \notin {4, 5} /\ ~noeng THEN Rejected
        ELSE IF p[1] # "t" \/ p[2] \notin {"NC", "NLC"} THEN Rejected
        ELSE IF ~IsNumber(p[3]) \/ ~IsNumber(p[4]) THEN Rejected
        ELSE IF n = 5 /\ ~IsNumber(p[5]) THEN Rejected
        ELSE IF n = 5 /\ p[2] = "NC" THEN Free     \* a penalty without labels
        ELSE [id |-> p[2], pow |-> Halves[p[3]], typ |-> Halves[p[4]],
              kap |-> IF n = 5 THEN Halves[p[5]] ELSE DefaultKappa]

(* Costs the functional interface knows how to sample for. *)
Samplable(k, lab) ==
    /\ k.id = "NLC" => lab
    /\ \/ k.pow = 2 /\ k.typ \in {2, 4, -1}
       \/ k.pow = 4 /\ k.typ = 4
    /\ (k.id = "NLC" /\ k.pow = 2) => k.kap # 0

(* Probes: data differences (0,2) and (3,4), label differences 0, 2.       *)
(* Norms in micro.                                                         *)
NormProbe(typ, probe) ==
    IF probe = 1 THEN 2000000
    ELSE CASE typ = 2 -> 7000000 [] typ = 4 -> 5000000
           [] typ = 6 -> 4497941 [] typ = -1 -> 4000000

(* (norm + kappa*lab)/(1+kappa) in micro. *)
Ground(k, probe, dy) ==
    LET a == NormProbe(k.typ, probe)
        b == dy * MICRO
    IN  IF k.id = "NC" THEN a
        ELSE CASE k.kap = -1 -> b
               [] k.kap = DefaultKappa -> IF dy = 0 THEN 0 ELSE b
               [] OTHER -> (2 * a) \div (2 + k.kap)
                           + RDiv(k.kap * (b \div 100), 2 + k.kap) * 100

(* g^pow is checked through the logged value v (micro) on powers 1 and 2,  *)
(* the other powers on the first probe, whose ground distance is 2.        *)
ValueOk(k, probe, dy, v) ==
    LET g == Ground(k, probe, dy)
        tol == IF k.kap = DefaultKappa THEN 20 ELSE 200
    IN  CASE k.pow = 2 -> Close(v, g, tol)
          [] k.pow = 4 -> Close(v, RDiv((g \div 1000) * (g \div 1000), 1), 20000)
          [] k.pow = 0 -> (g > 1000 => Close(v, MICRO, 20))
          [] k.pow = 1 -> (g = 4000000 => Close(v, 2000000, 20))
                            /\ (g = 2000000 => Close(v, 1414214, 20))
          [] k.pow = 6 -> (g = 2000000 => Close(v, 8000000, 20))
          [] OTHER -> TRUE
Checkable(k) == k.typ \in {2, 4, 6, -1}
============================================================================
