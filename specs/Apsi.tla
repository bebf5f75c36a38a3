-------------------------------- MODULE Apsi --------------------------------
(* Private look-up of labels by key: a holder's table is divided into groups *)
(* of buckets, prepared by several processes, and then served to askers, who *)
(* are told the labels of the keys they ask for and nothing of any other.    *)
EXTENDS Integers, Sequences, FiniteSets
SetOf(s) == {s[i] : i \in 1..Len(s)}
\* one key is in the table at most once
Proper(db) == \A i, j \in 1..Len(db) : db[i][1] = db[j][1] => i = j
Found(db, ask) == SelectSeq(db, LAMBDA r : r[1] \in SetOf(ask))
\* a folder of prepared groups: what may become of it
\* (file: times each row stands in its group's file; db: rows stored; meta: the group says it is complete)
Fresh(Groups, Rows) == [st |-> "none", file |-> [r \in Rows |-> 0], db |-> [g \in Groups |-> {}], meta |-> {}]
Divided(d) == d.st # "none"
DivideRow(d, r) == [d EXCEPT !.file[r] = @ + 1]
Clean(d) == [d EXCEPT !.file = [r \in DOMAIN d.file |-> 0]]
RowsOf(d, of, g) == {r \in DOMAIN d.file : of[r] = g /\ d.file[r] > 0}
Bad(d, of, g) == \E r \in DOMAIN d.file : of[r] = g /\ d.file[r] > 1
Complete(d, of, g) == g \in d.meta
Served(d, of, ask) == {r \in ask : r \in d.db[of[r]]}
=============================================================================
