------------------------------ MODULE CsvCheck ------------------------------
EXTENDS Naturals, Sequences, FiniteSets
\* rows: key per line, 0 for a line with an empty key field
Accepts(rows, bom, skip) == /\ ~bom
                            /\ \A i \in 1..Len(rows) : rows[i] # 0
                            /\ skip \/ \A i, j \in 1..Len(rows) : i # j => rows[i] # rows[j]
=============================================================================
