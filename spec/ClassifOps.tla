----------------------------- MODULE ClassifOps -----------------------------
(***************************************************************************)
(* What a fitted linear classifier answers.  A fitted model is a sequence  *)
(* of coefficients per class (the first one null for two classes) and of   *)
(* intercepts, in micro; queries are integers times a fraction u.          *)
(***************************************************************************)
EXTENDS Num
Score(m, c, q, u) == RDiv(Dot(q, m.w[c]) * u[1], u[2]) + m.b[c]
LogOdds(m, c, q, u) == Score(m, c, q, u) - Score(m, 1, q, u)
Best(m, q, u, slack) == {c \in 1..Len(m.w) :
                        \A e \in 1..Len(m.w) : Score(m, c, q, u) >= Score(m, e, q, u) - slack}
=============================================================================
