------------------------------ MODULE CostOps ------------------------------
(***************************************************************************)
(* Transport costs between (labelled) points with integer coordinates.     *)
(* A cost k is [id, typ, pow, kn, kd]: identity ("NC"/"NLC"), norm type    *)
(* (0 stands for the sup norm), power, and penalty kn/kd (kn = -1 stands   *)
(* for an infinite penalty, kn < -1 for a negative one).  With kd = 0 the  *)
(* penalty is 10^kn, and the data (or the labels, if kn < 0) are in units  *)
(* of 10^|kn|, which makes both sides weigh the same.                      *)
(* Values are in micro, or in milli when irrational.                       *)
(***************************************************************************)
EXTENDS Num

PowSum(u, p) == SumSeq([i \in 1..Len(u) |-> Pow(Abs(u[i]), p)])
NbNonZero(u) == Cardinality({i \in 1..Len(u) : u[i] # 0})
AbsMax(u) == MaxSeq([i \in 1..Len(u) |-> Abs(u[i])])

Norm(typ, u) ==
    IF NbNonZero(u) <= 1 THEN AbsMax(u)
    ELSE CASE typ = 0 -> AbsMax(u)
           [] typ = 1 -> PowSum(u, 1)
           [] typ = 2 -> Isqrt(SumSq(u))
NormIsInt(typ, u) ==
    \/ typ \in {0, 1} \/ NbNonZero(u) <= 1
    \/ typ = 2 /\ IsSquare(SumSq(u))

Extreme(k) == k.id = "NLC" /\ k.kd = 0
Refused(k) == k.id = "NLC" /\ k.kn < -1 /\ ~Extreme(k)

(* The part of a labelled difference that counts. *)
Part(k, dx, dy) ==
    IF Extreme(k) THEN "xy"
    ELSE IF k.id = "NC" \/ k.kn = 0 THEN "x" ELSE IF k.kn = -1 THEN "y" ELSE "xy"

SinglePart(k, u) ==           \* norm ^ power of one vector
    IF NormIsInt(k.typ, u) THEN MICRO * Pow(Norm(k.typ, u), k.pow)
    ELSE MICRO * PowSum(u, k.typ)          \* power = type
SinglePartExact(k, u) ==
    IF NormIsInt(k.typ, u) THEN Norm(k.typ, u) <= 40 /\ Pow(Norm(k.typ, u), k.pow) <= 900
    ELSE k.typ = k.pow /\ k.typ \in 2..4 /\ PowSum(u, k.typ) <= 900

(* (s / (1 + 10^-u))^p, developed to the third order. *)
Balanced(s, u, p) ==
    With(Pow(s, p), LAMBDA t :
      t * MICRO - (IF u > 6 THEN RDiv(t * p, Pow10(u - 6)) ELSE t * p * Pow10(6 - u))
                + (IF u > 3 THEN 0 ELSE t * ((p * (p + 1)) \div 2)
                                        - RDiv(t * ((p * (p + 1) * (p + 2)) \div 6), 1000)))

Mixed(k, dx, dy) ==
    IF Extreme(k) THEN Balanced(Norm(k.typ, dx) + Norm(k.typ, dy), Abs(k.kn), k.pow)
    ELSE RDiv(MICRO * Pow(k.kd * Norm(k.typ, dx) + k.kn * Norm(k.typ, dy), k.pow),
              Pow(k.kn + k.kd, k.pow))

(* In micro. *)
Cost(k, dx, dy) ==
    CASE Part(k, dx, dy) = "x" -> SinglePart(k, dx)
      [] Part(k, dx, dy) = "y" -> SinglePart(k, dy)
      [] Part(k, dx, dy) = "xy" -> Mixed(k, dx, dy)
CostExact(k, dx, dy) ==
    CASE Part(k, dx, dy) = "x" -> SinglePartExact(k, dx)
      [] Part(k, dx, dy) = "y" -> SinglePartExact(k, dy)
      [] Part(k, dx, dy) = "xy" ->
           /\ NormIsInt(k.typ, dx) /\ NormIsInt(k.typ, dy)
           /\ IF Extreme(k) THEN Pow(Norm(k.typ, dx) + Norm(k.typ, dy), k.pow) <= 900
              ELSE Pow(k.kd * Norm(k.typ, dx) + k.kn * Norm(k.typ, dy), k.pow) <= 900

(* Irrational euclidean distances, in milli. *)
Euclid(k) == k.typ = 2 /\ k.pow = 1
EuclidMilli(u) == Isqrt(MICRO * SumSq(u))
CostIsEuclid(k, dx, dy) ==
    /\ Euclid(k) /\ Part(k, dx, dy) # "xy"
    /\ SumSq(IF Part(k, dx, dy) = "x" THEN dx ELSE dy) <= 900

CostKnown(k, dx, dy) == CostExact(k, dx, dy) \/ CostIsEuclid(k, dx, dy)

(* Is the value v, in micro, the cost of the difference?  Numbers of       *)
(* simple precision (f32) are compared more loosely.                       *)
CostOk(k, dx, dy, f32, v) ==
    IF CostExact(k, dx, dy)
    THEN With(Cost(k, dx, dy), LAMBDA w :
           Close(v, w, 3 + (IF f32 THEN 3 + Abs(w) \div 200000 ELSE 0)))
    ELSE Abs(v \div 1000 - EuclidMilli(IF Part(k, dx, dy) = "x" THEN dx ELSE dy)) <= 1
============================================================================
