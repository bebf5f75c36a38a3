-------------------------------- MODULE Pps ---------------------------------
(* Private look-up in a database of N bits with two servers and punctured    *)
(* sets.  The client knows, from one server, the sums over some sets; to read *)
(* bit i it sends the other server one of these sets that has i in it,        *)
(* without i - or, now and then, without another element, so that i shows up  *)
(* in a question as often as any other place.  A set is given by a base and a *)
(* shift.  Contents are symbolic: a sum of bits is the set of the places that *)
(* are in it an odd number of times.                                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, S
Places == 0..(N - 1)
Abort == {-1}
Plus(a, b) == (a + b) % N
Minus(a, b) == (a + N - b) % N
Shift(B, d) == {Plus(e, d) : e \in B}
Sum2(A, B) == (A \ B) \cup (B \ A)
Bases == {B \in SUBSET Places : Cardinality(B) = S}
\* a question: what is left of the base, and the shift
Shown(q) == Shift(q.left, q.d)
\* --- one question: one base, several shifts (in the order the client tries them)
Fits(base, shifts, i) == {k \in DOMAIN shifts : Minus(i, shifts[k]) \in base}
Use1(base, shifts, i) == IF Fits(base, shifts, i) = {} THEN 0 ELSE CHOOSE k \in Fits(base, shifts, i) : \A m \in Fits(base, shifts, i) : k <= m
\* hide: leave out another element (the o-th of the others) instead; alt: an element of the base, where no shift fits
Nth(T, o) == CHOOSE e \in T : Cardinality({f \in T : f < e}) = o
Ask1(base, shifts, i, alt, hide, o) ==
  LET k == Use1(base, shifts, i)
      d == IF k = 0 THEN Minus(i, alt) ELSE shifts[k]
      out == IF hide THEN Nth(base \ {Minus(i, d)}, o) ELSE Minus(i, d)
  IN [left |-> base \ {out}, d |-> d]
Read1(base, shifts, i, hide, reply) ==
  LET k == Use1(base, shifts, i) IN IF hide \/ k = 0 THEN Abort ELSE Sum2(Shift(base, shifts[k]), reply)
\* --- many questions: sets [base, d, sum], a used one is replaced by a new one that has i in it
First(st, i) == LET H == {k \in DOMAIN st : i \in Shift(st[k].base, st[k].d)}
                IN IF H = {} THEN 0 ELSE CHOOSE k \in H : \A m \in H : k <= m
AskM(st, i, new, e, hide, o) ==
  LET d == Minus(i, e)
      j == IF hide THEN 0 ELSE First(st, i)
      l == [left |-> new \ {IF hide THEN Nth(new \ {e}, o) ELSE e}, d |-> d]
  IN [l |-> l, j |-> j, r |-> IF j = 0 THEN l ELSE [left |-> st[j].base \ {Minus(i, st[j].d)}, d |-> st[j].d],
      st |-> IF j = 0 THEN st ELSE [st EXCEPT ![j] = [st[j] EXCEPT !.base = new, !.d = d]]]
\* the sum of the new set is known only now
ReadM(a, al, ar) ==
  IF a.j = 0 THEN [val |-> Abort, st |-> a.st]
  ELSE LET v == Sum2(ar, a.st[a.j].sum) IN [val |-> v, st |-> [a.st EXCEPT ![a.j].sum = Sum2(al, v)]]
\* k of n draws at a in b, seven standard deviations about (of draws that come w at a time)
NearW(k, n, a, b, w) ==
  LET d == IF k * b > n * a THEN k * b - n * a ELSE n * a - k * b
      v == n * a * (b - a)
  IN n = 0 \/ IF d < 46000 THEN (d * d) \div (49 * w) <= v + 1 ELSE d < 2900000 /\ ((d \div 64) * (d \div 64)) \div (49 * w) <= v \div 4096
Near(k, n, a, b) == NearW(k, n, a, b, 1)
=============================================================================
