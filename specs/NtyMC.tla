-------------------------------- MODULE NtyMC --------------------------------
EXTENDS Nty
CONSTANTS Ns, U
VARIABLE sets
Init == \E n \in Ns : sets \in [1..n -> SUBSET (1..U)]
Next == UNCHANGED sets
Spec == Init /\ [][Next]_sets
Right == Result(sets) = Inter(sets)
=============================================================================
