------------------------------ MODULE UbWireMC ------------------------------
EXTENDS UbWire
K == 1..3
Seqs(S) == UNION {{f \in [1..n -> S] : Distinct(f)} : n \in 1..Cardinality(S)}
Init == /\ keys \in [{"s", "c"} -> SUBSET K] /\ sg \in BOOLEAN /\ cg \in BOOLEAN /\ (sg \/ cg) /\ Start
Next == \/ \E xs \in Seqs(K) : SendCache(xs) \/ (Ran(cached) = keys["s"] /\ (SendBlind(xs) \/ SendAnswer(xs)))
        \/ Full /\ sent # <<>> /\ NextOnline
Spec == Init /\ [][Next]_ubw
Due == cg => Knows \subseteq keys["s"] \cap keys["c"]
AllDue == (cg /\ Full /\ Ran(cached) = keys["s"]) => Knows = keys["s"] \cap keys["c"]
NotDue == ~cg => Knows = {}
=============================================================================
