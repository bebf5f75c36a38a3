------------------------------- MODULE MpPsi -------------------------------
(* What a run among several parties owes each of them: the receiver, and the  *)
(* others too if the result is broadcast, get every item that all parties     *)
(* hold, once each; nobody else gets anything.                                *)
EXTENDS Naturals, Integers, FiniteSets, Sequences, SequencesExt
Rn(s) == {s[i] : i \in 1..Len(s)}
\* sets: sequence of the parties' sets
Inter(sets) == FoldLeft(LAMBDA a, b : a \cap b, sets[1], sets)
Entitled(p, recv, bc) == bc \/ p = recv
Owed(p, sets, recv, bc) == IF Entitled(p, recv, bc) THEN Inter(sets) ELSE {}
Exactly(list, S) == Rn(list) = S /\ Len(list) = Cardinality(S)
=============================================================================
