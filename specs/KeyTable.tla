------------------------------ MODULE KeyTable ------------------------------
(* The distinct keys of a table, where the rows of each begin in the sorted   *)
(* table, and how many more there are.                                        *)
EXTENDS Naturals, Sequences, FiniteSets
Bag(t) == [k \in {t[i].k : i \in 1..Len(t)} |-> Cardinality({i \in 1..Len(t) : t[i].k = k})]
\* t sorted: same lines, keys ascending, lines of one key in their old order
SortedFrom(t, s) == /\ Len(s) = Len(t)
                    /\ \A n \in 1..Len(s) - 1 : s[n].k <= s[n + 1].k
                    /\ \A n \in 1..Len(s) - 1 : s[n].k = s[n + 1].k => s[n].row < s[n + 1].row
                    /\ {s[n] : n \in 1..Len(s)} = {t[n] : n \in 1..Len(t)}
\* rec: sequence of [k, start, dup] (start counted from 0)
KeysOf(s, rec) == /\ \A n \in 1..Len(rec) : /\ rec[n].start + rec[n].dup < Len(s)
                                             /\ \A j \in 0..rec[n].dup : s[rec[n].start + 1 + j].k = rec[n].k
                  /\ \A n \in 1..Len(rec) - 1 : rec[n + 1].start = rec[n].start + rec[n].dup + 1 /\ rec[n].k # rec[n + 1].k
                  /\ IF Len(rec) = 0 THEN Len(s) = 0
                     ELSE rec[1].start = 0 /\ rec[Len(rec)].start + rec[Len(rec)].dup + 1 = Len(s)
=============================================================================
