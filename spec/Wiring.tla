-------------------------------- MODULE Wiring --------------------------------
(***************************************************************************)
(* Configurations of the estimators, tolerances of their stopping rule (in *)
(* tenths, <<0, 0>> for the default rule) and training sets.               *)
(***************************************************************************)
EXTENDS EstimConfig, WiringOps, Json
CONSTANTS Rules, Dims, Sizes, Demands, Coords, Targets, NClasses
VARIABLES ph, k, s
vars == <<ph, k, s>>
Init == ph = "config" /\ k = <<>> /\ s = [rule |-> <<0, 0>>, d |-> 1, classes |-> 2, y |-> <<>>, x |-> <<>>]
Config == /\ ph = "config"
          /\ \E c \in Configs, d \in Pick(Dims), n \in Pick(NClasses),
                r \in Pick(Rules) :
               /\ ~(c.cls = "nv" /\ c.solver = "torch") /\ ~Dedicated(c)
               /\ (c.cls # "nv" \/ c.cost # <<1, 0>>)
               (* almost no regularisation: any rounding may decide *)
               /\ (c.eps < 0 => c.cls \in {"nv", "pf", "wb"})
               /\ k' = c
               /\ s' = [s EXCEPT !.d = d, !.classes = n, !.rule = r]
          /\ ph' = "data"
Value(y) == CASE k.cls = "log" -> IF Len(s.y) < s.classes THEN Len(s.y) + 1
                                  ELSE (y % s.classes) + 1
              [] k.cls = "wb" -> 1 + Abs(y)
              [] OTHER -> y
Data == /\ ph = "data" /\ Len(s.y) < MaxSet(Sizes)
        /\ \E x \in PickSeq(s.d, IF k.cls = "nv" THEN Demands ELSE Coords),
              y \in Pick(Targets) :
             s' = [s EXCEPT !.x = Append(@, x), !.y = Append(@, Value(y))]
        /\ UNCHANGED <<ph, k>>
Finish == /\ ph = "data" /\ Len(s.y) \in Sizes /\ (k.cls = "log" => Len(s.y) >= s.classes)
          /\ PrintT("SCEN " \o ToJson([k |-> k, s |-> s, pb |-> Problem(k, s.classes)]))
          /\ ph' = "done" /\ UNCHANGED <<k, s>>
Next == Config \/ Data \/ Finish
Spec == Init /\ [][Next]_vars

(* No parameter is lost: changing one changes the problem. *)
Differs(k2) == Problem(k2, s.classes) # Problem(k, s.classes)
NothingLost == ph = "done" =>
    /\ Differs([k EXCEPT !.rho[1] = @ + 1]) /\ Differs([k EXCEPT !.nz = @ + 1])
    /\ Differs([k EXCEPT !.seed = @ + 1]) /\ Differs([k EXCEPT !.eps = @ + 1])
    /\ Differs([k EXCEPT !.lr = @ + 1]) /\ Differs([k EXCEPT !.cost = <<9, 9>>])
    /\ k.cls # "pf" => Differs([k EXCEPT !.l2 = @ + 1])
    /\ k.cls \in {"lr", "log"} => Differs([k EXCEPT !.icpt = ~@])
    /\ k.cls \in {"lr", "log", "wb"} => Differs([k EXCEPT !.sig = @ + 1])
    /\ k.cls = "nv" => Differs([k EXCEPT !.ku[2] = @ + 1])
    /\ k.cls = "pf" => Differs([k EXCEPT !.eta[1] = @ + 1])
=============================================================================
