------------------------------ MODULE WrapOps ------------------------------
(***************************************************************************)
(* The user's loss seen through the library.  A configuration c describes  *)
(* the user's loss of one sample: c.k output coordinates, coordinate i     *)
(* being <w, u> + i*b + v.y with u the transformed point (u = x, or        *)
(* u = t*x for a transform with parameter t), where w (module losses only) *)
(* and t are the trainable parameters; c.l2 is the l2 weight in eighths.   *)
(* c.announced is the reduction the module announces: only "none" is a     *)
(* loss per sample, the others are refused.                                *)
(***************************************************************************)
EXTENDS Num

HasTransform(c) == c.tr # 0
U(c, x) == IF HasTransform(c) THEN Scale(c.tr, x) ELSE x
Coord(c, x, y, i) == Dot(c.w, U(c, x)) + i * c.b + SumSeq(y) * c.v

(* Squared norm of the trainable parameters. *)
Theta2(c) == (IF c.kind = "module" THEN SumSq(c.w) ELSE 0) + c.tr * c.tr
Penalty16(c) == IF c.l2 > 0 THEN c.l2 * Theta2(c) ELSE 0     \* in sixteenths

(* Loss of one sample, in micro: averaged over the coordinates. *)
One(c, x, y) ==
    RDiv(MICRO * SumSeq([i \in 1..c.k |-> Coord(c, x, y, i)]), c.k)
      + (MICRO \div 16) * Penalty16(c)

(* Shapes: a point, a batch of s.m, a stack s.n x s.m, s.q such stacks.    *)
Count(s) == CASE s.lay = "point" -> 1 [] s.lay = "batch" -> s.m
              [] s.lay = "stack" -> s.n * s.m [] s.lay = "stacks" -> s.q * s.n * s.m
ShapeOk(s, sh) ==
    CASE s.lay = "point" -> sh = <<>> \/ sh = <<1>>
      [] s.lay = "batch" -> sh = <<s.m>> \/ (s.m = 1 /\ sh = <<>>)
      [] s.lay = "stack" -> sh = <<s.n, s.m, 1>>
      [] s.lay = "stacks" -> sh = <<s.q, s.n, s.m, 1>>
============================================================================
