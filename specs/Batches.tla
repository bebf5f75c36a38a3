------------------------------ MODULE Batches ------------------------------
(* A provider hands out its source in batches: every item exactly once, in    *)
(* order or, if it shuffles, with the place it had.                           *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES src,     \* the source: sequence of items
          cnt,     \* how many were handed out
          used     \* the places handed out (shuffled reading)
btv == <<src, cnt, used>>
Min(a, b) == IF a < b THEN a ELSE b
Start(s) == src = s /\ cnt = 0 /\ used = {}
Size(n) == Min(n, Len(src) - cnt)
Next_(n, xs) == /\ xs = SubSeq(src, cnt + 1, cnt + Size(n)) /\ cnt' = cnt + Size(n) /\ UNCHANGED <<src, used>>
\* xs: sequence of [x, bi, si] -- the item, its running number, its place in the source
Shuffled(n, xs) ==
  LET S == {xs[i].si : i \in 1..Len(xs)} IN
  /\ Len(xs) = Size(n) /\ Cardinality(S) = Len(xs) /\ S \cap used = {}
  /\ \A i \in 1..Len(xs) : /\ xs[i].bi = cnt + i - 1 /\ xs[i].si \in 0..Len(src) - 1 /\ xs[i].x = src[xs[i].si + 1]
  /\ cnt' = cnt + Len(xs) /\ used' = used \cup S /\ UNCHANGED src
=============================================================================
