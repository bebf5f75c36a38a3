---------------------------- MODULE IndexStoreMC ----------------------------
EXTENDS IndexStore
VARIABLES last, must        \* number of items ever written, items whose commit returned and that were not truncated
MInit == Start /\ last = 0 /\ must = <<>>
MNext == \/ \E t \in BOOLEAN : Open(t) /\ must' = (IF t THEN <<>> ELSE must) /\ UNCHANGED last
         \/ last < 4 /\ Write(<<last + 1>>) /\ last' = last + 1 /\ UNCHANGED must
         \/ (Commit \/ Close) /\ must' = must \o pend /\ UNCHANGED last
         \/ Crash /\ UNCHANGED <<last>> /\ must' = disk'
MSpec == MInit /\ [][MNext]_<<isv, last, must>>
\* nothing committed is missing, nothing appears twice or out of order
Kept == must = disk
Ordered == \A i, j \in 1..Len(disk) : i < j => disk[i] < disk[j]
=============================================================================
