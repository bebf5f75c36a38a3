----------------------------- MODULE EcdhWireMC -----------------------------
EXTENDS EcdhWire
CONSTANTS Keys
Init == Start /\ keys \in [P -> (SUBSET Keys) \ {{}}] /\ gets \in {{"r"}, {"s", "r"}}
Next == \E p \in P : \E xs \in (SUBSET Keys) \ {{}} : Cardinality(xs) <= 2 /\ (SendMasked(p, xs) \/ SendDual(p, xs))
Spec == Init /\ [][Next]_wireVars
=============================================================================
