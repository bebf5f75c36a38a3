------------------------------ MODULE Ecdh3MC ------------------------------
EXTENDS Ecdh3, SequencesExt
CONSTANT U
Orders(S) == IF S = {} THEN {} ELSE {SetToSeq(S)}      \* one order suffices: names are interchangeable
Init == sets \in [{"a", "b", "c"} -> SUBSET (1..U)] /\ Begin
Next == \E k \in May : seen[k] = <<>> /\ \E xs \in Orders(Of(k)) : Send(k, xs)
Spec == Init /\ [][Next]_e3 /\ WF_e3(Next)
Exact == Full => Result = sets["a"] \cap sets["b"] \cap sets["c"]
NoLink == Linked = {}
Gets == <>Full
=============================================================================
