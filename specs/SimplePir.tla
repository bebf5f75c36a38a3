------------------------------ MODULE SimplePir -----------------------------
(* Private look-up in a square table by linear algebra modulo q (SimplePIR). *)
(* The question is a noisy multiple of the public column A, plus delta at the *)
(* column asked for; every row of the table times the question is the reply; *)
(* taking the secret's part (from the hint, the table times A) off the reply *)
(* leaves delta times the entry and a small sum of errors.  One dimension:   *)
(* more of them only add further terms of the same kind.                     *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Dot(_, _)
Dot(u, v) == IF u = <<>> THEN 0 ELSE u[1] * v[1] + Dot(Tail(u), Tail(v))
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Delta(q, p) == q \div p
Question(a, s, e, col, q, p) == [i \in DOMAIN a |-> (a[i] * s + e[i] + (IF i = col THEN Delta(q, p) ELSE 0)) % q]
Reply(row, qu, q) == Dot(row, qu) % q
Hint(row, a, q) == Dot(row, a) % q
Read(reply, hint, s, q, p) == LET phase == ((reply - ((hint * s) % q)) + q) % q
                                  dl == Delta(q, p)
                              IN ((phase \div dl) + (IF (phase % dl) >= (dl \div 2) THEN 1 ELSE 0)) % p
\* how much noise the sum of errors may be
Fits(row, e, q, p) == 2 * (Abs(Dot(row, e)) + (q % p)) + 2 <= Delta(q, p)
=============================================================================
