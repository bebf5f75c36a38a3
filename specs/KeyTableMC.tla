----------------------------- MODULE KeyTableMC -----------------------------
(* For every small table there is exactly one sorted table and one key list.  *)
EXTENDS KeyTable
CONSTANTS Keys, MaxRows
VARIABLE t
Tables == UNION {[1..n -> Keys] : n \in 0..MaxRows}
MInit == \E f \in Tables : t = [i \in 1..Len(f) |-> [k |-> f[i], row |-> i]]
MSpec == MInit /\ [][UNCHANGED t]_t
Orders(s) == {f \in [1..Len(s) -> 1..Len(s)] : \A i, j \in 1..Len(s) : i # j => f[i] # f[j]}
Sorts == {s \in {[i \in 1..Len(t) |-> t[f[i]]] : f \in Orders(t)} : SortedFrom(t, s)}
OneSort == Cardinality(Sorts) = 1
TheSort == CHOOSE s \in Sorts : TRUE
Lists(s) == UNION {[1..n -> [k : Keys, start : 0..Len(t), dup : 0..Len(t)]] : n \in {Cardinality({t[i].k : i \in 1..Len(t)})}}
OneList == Len(t) <= 3 => \E rec \in Lists(t) : KeysOf(TheSort, rec) /\ \A r2 \in Lists(t) : KeysOf(TheSort, r2) => r2 = rec
Counts == \A rec \in Lists(t) : KeysOf(TheSort, rec) => \A n \in 1..Len(rec) : rec[n].dup + 1 = Bag(t)[rec[n].k]
=============================================================================
