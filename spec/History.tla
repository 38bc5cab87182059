------------------------------- MODULE History -------------------------------
(***************************************************************************)
(* Histories of several estimators: constructions, clones, parameter       *)
(* changes, fits (refused ones too), looks at the models, and disturbances *)
(* of the process (random generators, other uses of the library).          *)
(***************************************************************************)
EXTENDS EstimConfig, HistoryOps, Sequences, SequencesExt, Json
CONSTANTS NSlots, Rules, DataSets, Noises, MaxLen
VARIABLES ph, slots, es
vars == <<ph, slots, es>>
Slots == 1..NSlots
Used == 1..Len(slots)
Init == ph = "live" /\ slots = <<>> /\ es = <<>>
(* A history ends on a fit or a look. *)
Live == ph = "live" /\ Len(es) < MaxLen - 1
Open == ph = "live" /\ Len(es) < MaxLen
Do(e) == /\ es' = Append(es, e)
         /\ slots' = IF e.s = 0 THEN slots
                     ELSE IF e.s > Len(slots) THEN Append(slots, After(<<>>, e))
                     ELSE [slots EXCEPT ![e.s] = After(@, e)]
         /\ UNCHANGED ph
(* Any slot in use, or the next free one. *)
Target == 1..(IF Len(slots) < NSlots THEN Len(slots) + 1 ELSE NSlots)
New == Live /\ \E s \in Target, k \in Configs, r \in Pick(Rules) :
                  Do([op |-> "new", s |-> s, k |-> k, rule |-> r])
Clone == Live /\ \E s \in Target, t \in Used :
                   /\ s # t
                   /\ Do([op |-> "clone", s |-> s, from |-> t, k |-> slots[t].k,
                          rule |-> slots[t].rule])
Changes(k) == {[k EXCEPT !.rho = v] : v \in Pick(Rhos)} \cup {[k EXCEPT !.nz = v] : v \in Pick(NZs)}
              \cup {[k EXCEPT !.seed = v] : v \in Pick(Seeds)}
              \cup {[k EXCEPT !.budget = v] : v \in Pick(Budgets)}
              \cup {[k EXCEPT !.lr = v] : v \in Pick(Lrs)} \cup {[k EXCEPT !.eps = v] : v \in Pick(Epss)}
              \cup {[k EXCEPT !.l2 = v] : v \in Pick(L2s)}
              \cup {[k EXCEPT !.icpt = v] : v \in Pick(Icpts)}
              \cup {[k EXCEPT !.solver = v] : v \in Pick(Solvers)}
              \cup {[k EXCEPT !.supp = v] : v \in Pick(Supps)}
Set == Live /\ \E s \in Used : \E k \in PickSome(Changes(slots[s].k)) :
                 /\ Allowed(k) /\ k # slots[s].k
                 /\ Do([op |-> "set", s |-> s, k |-> k, old |-> slots[s].k])
(* Bounds are known for two assets, the last data sets have three. *)
Fits(k, d) == ~(k.cls = "pf" /\ k.supp > 0 /\ d >= 5)
Fit == Open /\ \E s \in Used, d \in Pick(DataSets) :
                 Fits(slots[s].k, d) /\ Do([op |-> "fit", s |-> s, d |-> d,
                     key |-> [k |-> slots[s].k, rule |-> slots[s].rule, d |-> d]])
Refit == Open /\ \E s \in Used : slots[s].fit.known /\ Fits(slots[s].k, slots[s].fit.d)
                   /\ Do([op |-> "fit", s |-> s, d |-> slots[s].fit.d,
                          key |-> [k |-> slots[s].k, rule |-> slots[s].rule,
                                   d |-> slots[s].fit.d]])
Fail == Live /\ \E s \in Used : Do([op |-> "fail", s |-> s, k |-> slots[s].k])
Look == Open /\ \E s \in Used :
                  /\ slots[s].fit.known /\ Len(es) > 0 /\ es[Len(es)].s # s
                  /\ Do([op |-> "look", s |-> s,
                         key |-> [k |-> slots[s].fit.k, rule |-> slots[s].fit.rule,
                                  d |-> slots[s].fit.d],
                         probe |-> slots[s].k = slots[s].fit.k])
Noise == Live /\ \E n \in Pick(Noises) : Do([op |-> "noise", s |-> 0, n |-> n])
Finish == /\ ph = "live" /\ Len(es) = MaxLen
          /\ \E i \in 1..Len(es) : es[i].op = "fit"
          /\ PrintT("SCEN " \o ToJson([es |-> es]))
          /\ ph' = "done" /\ UNCHANGED <<slots, es>>
Next == New \/ Clone \/ Set \/ Fit \/ Refit \/ Fail \/ Look \/ Noise \/ Finish
Spec == Init /\ [][Next]_vars

(* A slot is what its own events made of it; the key of every fit is the   *)
(* configuration built by them, whatever happened elsewhere.               *)
Own(s) == SelectSeq(es, LAMBDA e : e.s = s)
Isolated == \A s \in Used : slots[s] = FoldLeft(LAMBDA st, e : After(st, e), <<>>, Own(s))
KeysAreOwn == \A s \in Used :
    \A i \in 1..Len(Own(s)) :
        Own(s)[i].op = "fit" =>
            LET before == FoldLeft(LAMBDA st, e : After(st, e), <<>>, SubSeq(Own(s), 1, i - 1))
            IN Own(s)[i].key.k = before.k /\ Own(s)[i].key.rule = before.rule
=============================================================================
