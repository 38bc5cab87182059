-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact integer arithmetic shared by the specifications.                  *)
(*                                                                         *)
(* Real quantities are carried as integers in a fixed unit: "micro" is     *)
(* 10^-6, "myria" is 10^-4.  Exponentials and logarithms are made exact by *)
(* working in base 2: the harness picks regularisations, noise scales and  *)
(* margins that are multiples of ln 2, so that every exponential of the    *)
(* implementation is a power of two and every logarithm is read in LG.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Functions, Log2Table

MICRO == 1000000
MYRIA == 10000

Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
Close(a, b, tol) == Abs(a - b) <= tol

(* TLC evaluates arguments lazily and may do it again at each use, hence   *)
(* no recursion on computed arguments in what follows.                     *)
SumSeq(s) == FoldFunction(LAMBDA x, y : x + y, 0, s)
Vals(s) == {s[i] : i \in 1..Len(s)}
MinSet(R) == CHOOSE x \in R : \A y \in R : x <= y
MaxSet(R) == CHOOSE x \in R : \A y \in R : x >= y
MinSeq(s) == MinSet(Vals(s))
MaxSeq(s) == MaxSet(Vals(s))

(* Op(v) with v computed exactly once. *)
With(v, Op(_)) == CHOOSE r \in {Op(x) : x \in {v}} : TRUE

Map(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384,
        32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304>>
Pow2(n) == P2[n + 1]
Pow(a, n) == CASE n = 0 -> 1 [] n = 1 -> a [] n = 2 -> a * a
               [] n = 3 -> a * a * a [] n = 4 -> a * a * a * a

Pow10(n) == <<1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000>>[n + 1]

Dot(u, v) == SumSeq([i \in 1..Len(u) |-> u[i] * v[i]])
Add(u, v) == TLCEval([i \in 1..Len(u) |-> u[i] + v[i]])
Sub(u, v) == TLCEval([i \in 1..Len(u) |-> u[i] - v[i]])
Scale(k, v) == [i \in 1..Len(v) |-> k * v[i]]
SumSq(v) == Dot(v, v)
Zeros(n) == [i \in 1..n |-> 0]

(* Floor of the square root. *)
Isqrt(n) == CHOOSE k \in 0..Min2(n, 46339) : k * k <= n /\ n - k * k <= 2 * k
IsSquare(n) == n >= 0 /\ Isqrt(n) * Isqrt(n) = n

(* The same, bit after bit. *)
RECURSIVE RootFrom(_, _, _)
RootFrom(n, r, b) ==
    IF b = 0 THEN r
    ELSE With(IF r + b <= 46340 /\ (r + b) * (r + b) <= n THEN r + b ELSE r,
              LAMBDA s : RootFrom(n, s, b \div 2))
Root(n) == With(n, LAMBDA v : RootFrom(v, 0, 32768))

(* Division rounded to the nearest integer, for any sign of a and b > 0. *)
RDiv(a, b) == (2 * a + b) \div (2 * b)
Divides(b, a) == a % b = 0

(* log2 of a sum of powers of two, in micro; ks are the exponents. *)
ExpSum(ks) == LET t == TLCEval(ks)
                  kmin == TLCEval(MinSeq(t))
              IN  SumSeq([j \in 1..Len(t) |-> Pow2(t[j] - kmin)])
ExpSumFits(ks) == MaxSeq(ks) - MinSeq(ks) <= 10 /\ ExpSum(ks) <= LGMAX
Log2Mean(ks) == MinSeq(ks) * MICRO + LG[ExpSum(ks)] - LG[Len(ks)]

ASSUME RootIsIsqrt == \A n \in 0..300 : Root(n) = Isqrt(n)
ASSUME LGTableIsSane ==
    /\ Len(LG) = LGMAX
    /\ \A e \in 0..10 : LG[Pow2(e)] = e * MICRO
    /\ \A k \in 1..(LGMAX - 1) : LG[k] < LG[k + 1]
    /\ \A a \in 2..45 : \A b \in 2..45 :
          a * b <= LGMAX => Close(LG[a * b], LG[a] + LG[b], 2)
============================================================================
