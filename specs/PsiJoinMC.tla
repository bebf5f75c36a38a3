------------------------------ MODULE PsiJoinMC ------------------------------
(* Every pair of small tables and every join type: the per-party description  *)
(* (Times/Blank) is exactly the projection of the join, both files have the   *)
(* same number of lines and an aligned order of them exists.                  *)
EXTENDS PsiJoin, TLC
CONSTANTS MaxRows, Keys
VARIABLES s, r, type, sleft, pc
Tables == UNION {[1..n -> Keys] : n \in 1..MaxRows}
Row(t) == [i \in DOMAIN t |-> [k |-> t[i], row |-> i]]
Init == /\ \E a \in Tables, b \in Tables : s = Row(a) /\ r = Row(b)
        /\ type \in {"INNER", "LEFT", "RIGHT", "FULL", "DIFF"} /\ sleft \in BOOLEAN /\ pc = "in"
Next == pc = "in" /\ pc' = "out" /\ UNCHANGED <<s, r, type, sleft>>
Spec == Init /\ [][Next]_<<s, r, type, sleft, pc>>
Pairs == IF sleft THEN JoinPairs(type, s, r) ELSE {<<p[2], p[1]>> : p \in JoinPairs(type, r, s)}
Proj == pc = "out" =>
  /\ \A i \in Idx(s) : Cardinality({p \in Pairs : p[1] = i}) = Times(type, sleft, s, r, i)
  /\ \A j \in Idx(r) : Cardinality({p \in Pairs : p[2] = j}) = Times(type, ~sleft, r, s, j)
  /\ Cardinality({p \in Pairs : p[1] = 0}) = Blank(type, sleft, s, r, TRUE)
  /\ Cardinality({p \in Pairs : p[2] = 0}) = Blank(type, ~sleft, r, s, TRUE)
\* writing the pairs in any fixed order gives files that OutputOK and Aligned accept
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE x \in S : TRUE IN <<p>> \o SeqOf(S \ {p})
Accepts == pc = "out" =>
  LET q == SeqOf(Pairs)
      rs == [n \in 1..Len(q) |-> q[n][1]]
      rr == [n \in 1..Len(q) |-> q[n][2]]
  IN /\ OutputOK(type, sleft, s, r, TRUE, rs) /\ OutputOK(type, ~sleft, r, s, TRUE, rr)
     /\ Aligned(s, r, rs, rr)
=============================================================================
