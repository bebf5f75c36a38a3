------------------------------- MODULE NParty -------------------------------
(* n-party intersection by rounds of two-party intersections.  The receiver    *)
(* stands first, the others follow by size; in each round the first meets the *)
(* last and so on, the earlier one of a pair keeps the intersection and the    *)
(* later one leaves.  A round that leaves someone with nothing ends the run.   *)
EXTENDS MpPsi, SequencesExt
VARIABLES sets, recv, line, have, out    \* line: who is still in; out: <<>> or <<the result>>
np == <<sets, recv, line, have, out>>
Line(s, r) == <<r>> \o SetToSortSeq(DOMAIN s \ {r}, LAMBDA a, b :
                Cardinality(s[a]) < Cardinality(s[b]) \/ (Cardinality(s[a]) = Cardinality(s[b]) /\ a < b))
Begin(s, r) == sets = s /\ recv = r /\ line = Line(s, r) /\ have = s /\ out = <<>>
Half == (Len(line) + 1) \div 2
Round == /\ out = <<>> /\ Len(line) > 1
         /\ have' = [p \in DOMAIN sets |->
              IF \E i \in 1..Len(line) \div 2 : line[i] = p
              THEN LET i == CHOOSE i \in 1..Len(line) \div 2 : line[i] = p IN have[p] \cap have[line[Len(line) + 1 - i]]
              ELSE have[p]]
         /\ line' = SubSeq(line, 1, Half)
         /\ out' = IF \E i \in 1..Half : have'[line[i]] = {} THEN <<{}>> ELSE IF Half = 1 THEN <<have'[recv]>> ELSE <<>>
         /\ UNCHANGED <<sets, recv>>
=============================================================================
