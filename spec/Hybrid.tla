-------------------------------- MODULE Hybrid --------------------------------
(***************************************************************************)
(* Runs of a hybrid optimizer over a few parameter groups.                 *)
(***************************************************************************)
EXTENDS HybridOps, Choice, Json
CONSTANTS Opts, MarkSets, Lrs, Sizes, Inits, Grads, NGroups, Steps, Closures, Shapes
VARIABLES ph, k, cur, t
vars == <<ph, k, cur, t>>

Init == ph = "opt" /\ k = [groups |-> <<>>] /\ cur = <<>> /\ t = 0
PickOpt == /\ ph = "opt"
           /\ \E o \in Opts, c \in Closures :
                k' = [opt |-> o, closure |-> c, groups |-> <<>>, grads |-> <<>>]
           /\ ph' = "groups" /\ UNCHANGED <<cur, t>>
AddGroup ==
    /\ ph = "groups" /\ Len(k.groups) < MaxSet(NGroups)
    /\ \E ms \in Pick(MarkSets), lr \in Pick(Lrs), n \in Pick(Sizes), sh \in Pick(Shapes) :
       \E x \in PickSeq(n, Inits) :
         /\ k' = [k EXCEPT !.groups = Append(@, [marks |-> ms, lr |-> lr, n |-> n, init |-> x,
                                                shape |-> sh])]
         /\ Multiplicative(k'.groups[Len(k'.groups)]) => lr = 1
         /\ cur' = Append(cur, x)
    /\ UNCHANGED <<ph, t>>
Go == /\ ph = "groups" /\ Len(k.groups) \in NGroups /\ ph' = "run" /\ UNCHANGED <<k, cur, t>>
Rows == PickSeq(MaxSet(Sizes), Grads)
(* The gradients of one step, drawn group after group (cur is moved at the *)
(* end of the step).  Adam is fed constant gradients.                      *)
PickGrads ==
    /\ ph = "run" /\ t < Steps
    /\ LET first == k.grads = <<>> IN
       \E r1 \in Rows, r2 \in Rows, r3 \in Rows :
         LET row == IF k.opt = "adam" /\ ~first THEN k.grads[1] ELSE <<r1, r2, r3>>
             fit == [i \in 1..Len(k.groups) |->
                       [j \in 1..k.groups[i].n |->
                          IF Multiplicative(k.groups[i]) THEN Sgn(row[i][j]) ELSE row[i][j]]]
         IN /\ k' = [k EXCEPT !.grads = Append(@, fit)]
            /\ cur' = [i \in 1..Len(k.groups) |->
                         Update(k.opt, k.groups[i], cur[i], fit[i])]
    /\ t' = t + 1 /\ UNCHANGED ph
Finish ==
    /\ ph = "run" /\ t = Steps
    /\ PrintT("SCEN " \o ToJson([k |-> k]))
    /\ ph' = "done" /\ UNCHANGED <<k, cur, t>>
Next == PickOpt \/ AddGroup \/ Go \/ PickGrads \/ Finish
Spec == Init /\ [][Next]_vars

G(i) == k.groups[i]
OnItsSet == t > 0 => \A i \in 1..Len(k.groups) :
    /\ Has(G(i), "non_neg") /\ ~Conflict(G(i)) => \A j \in 1..G(i).n : cur[i][j] >= 0
    /\ (Has(G(i), "mwu_simplex") /\ Spread(cur[i]) <= 10) =>
          Close(SumSeq([j \in 1..G(i).n |-> Value(G(i), cur[i], j, TRUE)]), MICRO, G(i).n)
    /\ Multiplicative(G(i)) => \A j \in 1..G(i).n : Value(G(i), cur[i], j, FALSE) > 0
(* Ascent is descent on the opposite gradients. *)
AscentMirrors == \A i \in 1..Len(k.groups) : (ph = "done" /\ G(i).marks = <<"max">>) =>
    \A j \in 1..G(i).n :
       Move(k.opt, G(i), cur[i][j], 3) = Move(k.opt, [G(i) EXCEPT !.marks = <<>>], cur[i][j], -3)
=============================================================================
