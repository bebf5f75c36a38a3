----------------------------- MODULE IndexStore -----------------------------
(* The file of intersection indices: what was committed is on disk, in order, *)
(* with its counts; what was only written is lost with the process.           *)
EXTENDS Naturals, Sequences
VARIABLES disk, pend, open
isv == <<disk, pend, open>>
Start == disk = <<>> /\ pend = <<>> /\ open = FALSE
Open(trunc) == ~open /\ open' = TRUE /\ pend' = <<>> /\ disk' = IF trunc THEN <<>> ELSE disk
Write(xs) == open /\ pend' = pend \o xs /\ UNCHANGED <<disk, open>>
Commit == open /\ disk' = disk \o pend /\ pend' = <<>> /\ UNCHANGED open
Close == open /\ disk' = disk \o pend /\ pend' = <<>> /\ open' = FALSE
\* the process dies between two calls
Crash == open /\ open' = FALSE /\ pend' = <<>> /\ \E n \in 0..Len(pend) : disk' = disk \o SubSeq(pend, 1, n)
Read(xs) == xs = disk /\ UNCHANGED isv
=============================================================================
