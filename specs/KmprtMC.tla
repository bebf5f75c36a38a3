------------------------------- MODULE KmprtMC -------------------------------
EXTENDS Kmprt
CONSTANTS Ns, U
VARIABLES sets, ld
Init == \E n \in Ns : sets \in [1..n -> SUBSET (1..U)] /\ ld \in 1..n
Next == UNCHANGED <<sets, ld>>
Spec == Init /\ [][Next]_<<sets, ld>>
Right == Result(sets, ld) = Inter(sets)
Quiet == Silent(sets, ld)
=============================================================================
