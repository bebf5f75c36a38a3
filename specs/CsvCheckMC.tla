----------------------------- MODULE CsvCheckMC -----------------------------
(* Reading line by line, remembering the keys seen, comes to the same verdict. *)
EXTENDS CsvCheck
VARIABLES rows, at, seen, dup, bad
v == <<rows, at, seen, dup, bad>>
MInit == /\ \E f \in UNION {[1..n -> 0..3] : n \in 0..4} : rows = [i \in 1..Len(f) |-> f[i]]
         /\ at = 0 /\ seen = {} /\ dup = FALSE /\ bad = FALSE
MNext == /\ at < Len(rows) /\ at' = at + 1 /\ seen' = seen \cup {rows[at + 1]} /\ dup' = (dup \/ rows[at + 1] \in seen)
         /\ bad' = (bad \/ rows[at + 1] = 0) /\ UNCHANGED rows
MSpec == MInit /\ [][MNext]_v
Same == at = Len(rows) => \A skip \in BOOLEAN : Accepts(rows, FALSE, skip) = (~bad /\ (skip \/ ~dup))
=============================================================================
