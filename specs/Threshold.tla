------------------------------ MODULE Threshold ------------------------------
(* PSI limited to a number of common keys: the run is a PSI run in which the  *)
(* common keys outside of a set K, the same for both parties, match nothing.  *)
EXTENDS PsiJoin
Least(a, b) == IF a < b THEN a ELSE b
\* a key nobody has
Hide(t, H) == [i \in Idx(t) |-> IF t[i].k \in H THEN [t[i] EXCEPT !.k = -t[i].k] ELSE t[i]]
Allowed(s, r, thr) == {K \in SUBSET Common(s, r) : Cardinality(K) = Least(thr, Cardinality(Common(s, r)))}
Counts(s, r, thr) == LET n == Cardinality(Common(s, r)) IN <<n, Least(thr, n)>>
=============================================================================
