------------------------------- MODULE DpPsiMC -------------------------------
(* The steps that lead to the result, checked against what is claimed of it.  *)
EXTENDS DpPsi
CONSTANT U
VARIABLES A, B, S, keep, add, R, pc
dp == <<A, B, S, keep, add, R, pc>>
Init == /\ A \in SUBSET (1..U) /\ B \in SUBSET (1..U) /\ S = {} /\ keep = {} /\ add = {} /\ R = {} /\ pc = "sample"
Sample == pc = "sample" /\ S' \in SUBSET B /\ pc' = "noise" /\ UNCHANGED <<A, B, keep, add, R>>
Noise == /\ pc = "noise" /\ pc' = "end" /\ UNCHANGED <<A, B, S>>
         /\ IF S \subseteq A THEN R' = {} /\ UNCHANGED <<keep, add>>
            ELSE keep' \in SUBSET (S \cap A) /\ add' \in SUBSET (S \ A) /\ R' = keep' \cup add'
Spec == Init /\ [][Sample \/ Noise]_dp
Sub == IF S \subseteq A THEN 0 ELSE Cardinality((S \cap A) \ keep)
Right == pc = "end" => Possible(A, B, R, Cardinality(R), Sub, Cardinality(add), Cardinality(B) - Cardinality(S))
=============================================================================
