------------------------------ MODULE SolverOps ------------------------------
(***************************************************************************)
(* The solving routine as a state machine, on problems small enough for    *)
(* exact arithmetic: squared residual of an affine model, one adversarial  *)
(* sample per data point (so that the log-mean-exp is the sample itself),  *)
(* integer data, parameters, multipliers.                                  *)
(*                                                                         *)
(* Machine state: the number of optimizer steps taken.  Phase, gradients   *)
(* and end of the run are functions of it, of the current parameters, and  *)
(* of the answers of the stopping rule.                                    *)
(***************************************************************************)
EXTENDS Num

M(k) == Len(k.x)
WarmUp(k) == IF k.form = "int" THEN (3 * k.n[1]) \div 10 ELSE k.n[1]
Robust(k) == IF k.form = "int" THEN k.n[1] ELSE k.n[2]

(* The optimizer moves the parameters to scripted places, cyclically.      *)
Cyc(s, i) == s[((i - 1) % Len(s)) + 1]
At(k, i) == [w |-> Cyc(k.ws, i), b |-> Cyc(k.bs, i), lam |-> Cyc(k.ls, i)]

Res(p, x, y) == Dot(p.w, x) + p.b - y
Adv(k, i) == Add(k.x[i], k.off[i])
Cost(k, i) == LET d == k.off[i] IN
    IF k.pow = 2 THEN SumSq(d) ELSE SumSeq([j \in 1..Len(d) |-> Abs(d[j])])
(* k.r = -n is the radius 10^-n, too small to be seen in the value. *)
IsRobust(k) == k.r # 0
RhoPow(k) == IF k.r < 0 THEN 0 ELSE IF k.pow = 2 THEN k.r * k.r ELSE k.r

(* Everything times M(k), the gradients of the mean.                       *)
Point(k, i, robust) == IF robust THEN Adv(k, i) ELSE k.x[i]
ValueM(k, p, robust) ==
    SumSeq([i \in 1..M(k) |->
        LET r == Res(p, Point(k, i, robust), k.y[i]) IN
        r * r - (IF robust THEN p.lam * Cost(k, i) ELSE 0)])
      + (IF robust THEN M(k) * p.lam * RhoPow(k) ELSE 0)
GradWM(k, p, robust) ==
    [j \in 1..Len(p.w) |-> SumSeq([i \in 1..M(k) |->
        2 * Res(p, Point(k, i, robust), k.y[i]) * Point(k, i, robust)[j]])]
GradBM(k, p, robust) ==
    SumSeq([i \in 1..M(k) |-> 2 * Res(p, Point(k, i, robust), k.y[i])])
GradLM(k) == M(k) * RhoPow(k) - SumSeq([i \in 1..M(k) |-> Cost(k, i)])
RealRobust(k, n) == n > WarmUp(k) /\ IsRobust(k)

(* Number of robust steps of a run: stopAt and nanAt are robust step       *)
(* numbers (0: never) at which the rule first says stop, and after which   *)
(* the parameters are not numbers any more (seen at that step or at the    *)
(* next evaluation).  After step infAt (0: never) the objective is         *)
(* infinite, which is a number and ends nothing.                           *)
MinSome(S) == MinSet(S)
StepsAllowed(k) ==
    LET cut == {Robust(k)} \cup (IF k.stopAt > 0 THEN {k.stopAt} ELSE {})
        base == MinSome(cut)
    IN IF k.nanAt > 0 /\ k.nanAt <= base
       THEN {Min2(base, k.nanAt), Min2(base, k.nanAt + 1)} ELSE {base}
(* The objective was certainly not a number when the run stopped.          *)
SawNaN(k) == k.nanAt > 0 /\ \A c \in {Robust(k)} \cup (IF k.stopAt > 0 THEN {k.stopAt} ELSE {}) :
                 k.nanAt < c
MaySeeNaN(k) == k.nanAt > 0 /\ \A c \in {Robust(k)} \cup (IF k.stopAt > 0 THEN {k.stopAt} ELSE {}) :
                 k.nanAt <= c
=============================================================================
