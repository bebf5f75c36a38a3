------------------------------ MODULE NPartyMC ------------------------------
EXTENDS NParty
CONSTANTS Ns, U
Init == \E n \in Ns : \E s \in [1..n -> SUBSET (1..U)] : \E r \in 1..n : Begin(s, r)
Spec == Init /\ [][Round]_np /\ WF_np(Round)
Right == out # <<>> => out = <<Inter(sets)>>
Kept == \A p \in DOMAIN sets : Inter(sets) \subseteq have[p] /\ have[p] \subseteq sets[p]
Ends == <>(out # <<>>)
=============================================================================
