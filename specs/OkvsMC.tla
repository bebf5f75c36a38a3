------------------------------- MODULE OkvsMC -------------------------------
EXTENDS Okvs, TLC
CONSTANTS N, NC, ND, W, Random
Cols == 1..NC
Dense == (NC + 1)..(NC + ND)
Items == 1..N
VARIABLES rows, val, piv, gap, left, tab, st
vars == <<rows, val, piv, gap, left, tab, st>>
Row == [sp : {s \in SUBSET Cols : Cardinality(s) = W}, d : SUBSET Dense]
Init == /\ rows \in {f \in [Items -> Row] : \A i, j \in Items : i # j => f[i] # f[j]}
        /\ val \in [Items -> {0, 1}]
        /\ piv = <<>> /\ gap = {} /\ left = Items /\ tab = [c \in Cols \union Dense |-> 0] /\ st = "sort"
Weight(c) == Cardinality({i \in left : c \in rows[i].sp})
\* a column of least weight becomes a pivot: one of its rows goes into the triangle, the others into the gap
Pick == /\ st = "sort" /\ left # {}
        /\ \E c \in Cols : /\ Weight(c) > 0
                           /\ \A d \in Cols : Weight(d) > 0 => Weight(c) <= Weight(d)
                           /\ LET R == {i \in left : c \in rows[i].sp}
                              IN \E i \in R : /\ piv' = Append(piv, <<i, c>>) /\ gap' = gap \union (R \ {i}) /\ left' = left \ R
        /\ UNCHANGED <<rows, val, tab, st>>
Free == Cols \ Pivots(piv)
Draws == IF Random THEN [Free -> {0, 1}] ELSE {[c \in Free |-> 0]}
Solve == /\ st = "sort" /\ left = {}
         /\ LET all == UNION {{<<r, p>> : p \in GapSolutions(rows, val, piv, gap, r, Dense)} : r \in Draws}
            IN IF all = {} THEN st' = "none" /\ UNCHANGED tab
               ELSE /\ st' = "done"
                    /\ \E rp \in all :
                         tab' = Backfill(rows, val, piv, [c \in Cols \union Dense |-> IF c \in Free THEN rp[1][c] ELSE IF c \in Dense THEN rp[2][c] ELSE 0], Len(piv))
         /\ UNCHANGED <<rows, val, piv, gap, left>>
Next == Pick \/ Solve
Spec == Init /\ [][Next]_vars
\* whatever was drawn, the table gives back every value
GivesBack == st = "done" => Decodes(rows, val, tab)
\* drawing the free columns reaches every table that does: keys outside of the set stay undetermined
EveryTable ==
  (Random /\ st = "sort" /\ left = {}) =>
    LET mine == UNION {{Backfill(rows, val, piv, [c \in Cols \union Dense |-> IF c \in Free THEN r[c] ELSE IF c \in Dense THEN p[c] ELSE 0], Len(piv))
                         : p \in GapSolutions(rows, val, piv, gap, r, Dense)} : r \in [Free -> {0, 1}]}
    IN mine = {t \in [Cols \union Dense -> {0, 1}] : Decodes(rows, val, t)}
\* no solution on the dense columns means that some equations of the gap depend on each other there
NoneMeansSingular == st = "none" => gap # {}
=============================================================================
