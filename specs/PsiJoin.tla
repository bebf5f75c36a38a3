------------------------------- MODULE PsiJoin -------------------------------
(* What a two-party PSI run leaves behind.  A table is a sequence of rows     *)
(* [k |-> key, row |-> identity of the whole line].                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Idx(t) == 1..Len(t)
KeySet(t) == {t[i].k : i \in Idx(t)}
Count(t, k) == Cardinality({i \in Idx(t) : t[i].k = k})
Common(s, r) == KeySet(s) \cap KeySet(r)
\* --- the join, as a set of pairs (0 = no partner) ---
Inner(a, b) == {<<i, j>> \in Idx(a) \X Idx(b) : a[i].k = b[j].k}
LeftOnly(a, b) == {<<i, 0>> : i \in {i \in Idx(a) : a[i].k \notin KeySet(b)}}
RightOnly(a, b) == {<<0, j>> : j \in {j \in Idx(b) : b[j].k \notin KeySet(a)}}
\* a is the left table
JoinPairs(type, a, b) ==
  CASE type = "INNER" -> Inner(a, b)
    [] type = "LEFT"  -> Inner(a, b) \cup LeftOnly(a, b)
    [] type = "RIGHT" -> Inner(a, b) \cup RightOnly(a, b)
    [] type = "FULL"  -> Inner(a, b) \cup LeftOnly(a, b) \cup RightOnly(a, b)
    [] type = "DIFF"  -> LeftOnly(a, b) \cup RightOnly(a, b)
\* --- what one party writes: how often each of its own lines, and how many empty lines ---
KeepsInter(type) == type # "DIFF"
KeepsExcept(type, isleft) == \/ type \in {"FULL", "DIFF"}
                             \/ type = "LEFT" /\ isleft
                             \/ type = "RIGHT" /\ ~isleft
Times(type, isleft, own, peer, i) ==
  LET k == own[i].k IN
  IF k \in KeySet(peer) THEN IF KeepsInter(type) THEN Count(peer, k) ELSE 0
  ELSE IF KeepsExcept(type, isleft) THEN 1 ELSE 0
Unmatched(own, peer) == Cardinality({i \in Idx(own) : own[i].k \notin KeySet(peer)})
\* a party fills up with empty lines only when both parties learn the result
Blank(type, isleft, own, peer, both) ==
  IF both /\ KeepsExcept(type, ~isleft) THEN Unmatched(peer, own) ELSE 0
\* --- what one party reports ---
MatchedRows(own, peer) == Cardinality({i \in Idx(own) : own[i].k \in KeySet(peer)})
Report(own, peer, gets) ==
  [orig |-> Len(own), okey |-> Cardinality(KeySet(own)),
   inter |-> IF gets THEN MatchedRows(own, peer) ELSE -1,
   ikey |-> IF gets THEN Cardinality(Common(own, peer)) ELSE 0]
\* --- judging one output file: rows = identities of its lines in order, 0 = empty line ---
OutputOK(type, isleft, own, peer, both, rows) ==
  LET ids == {own[i].row : i \in Idx(own)}
      want(x) == IF x = 0 THEN Blank(type, isleft, own, peer, both)
                 ELSE LET T == {i \in Idx(own) : own[i].row = x} IN
                      Cardinality(T) * Times(type, isleft, own, peer, CHOOSE i \in T : TRUE)
  IN /\ \A n \in 1..Len(rows) : rows[n] \in ids \cup {0}
     /\ \A x \in ids \cup {0} : Cardinality({n \in 1..Len(rows) : rows[n] = x}) = want(x)
\* --- the two output files side by side ---
KeyOf(t, x) == t[CHOOSE i \in Idx(t) : t[i].row = x].k
Aligned(s, r, rs, rr) ==
  /\ Len(rs) = Len(rr)
  /\ \A n \in 1..Len(rs) :
       \/ rs[n] # 0 /\ rr[n] # 0 /\ KeyOf(s, rs[n]) = KeyOf(r, rr[n])
       \/ rs[n] = 0 /\ rr[n] # 0 /\ KeyOf(r, rr[n]) \notin KeySet(s)
       \/ rr[n] = 0 /\ rs[n] # 0 /\ KeyOf(s, rs[n]) \notin KeySet(r)
=============================================================================
