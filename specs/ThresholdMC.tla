----------------------------- MODULE ThresholdMC -----------------------------
(* The exchange behind it: the sender returns the receiver's keys, masked     *)
(* twice, in an order of its own, and notes for each place which key it is    *)
(* and how often the receiver has it; the receiver names at most thr places   *)
(* that match, the sender answers where these keys are.                       *)
EXTENDS Threshold
CONSTANTS U, N, Thrs, Fixed, DupOfPlace   \* Fixed: order kept; DupOfPlace: the count of the key that was at that place
VARIABLES s, r, thr, pos, pick, told
vars == <<s, r, thr, pos, pick, told>>
Tables == UNION {[1..n -> 1..U] : n \in 1..N}
Tab(f) == [i \in DOMAIN f |-> [k |-> f[i], row |-> i]]
Keys(t) == CHOOSE q \in [1..Cardinality(KeySet(t)) -> KeySet(t)] : \A i, j \in DOMAIN q : i < j => q[i] < q[j]
Asked == Keys(r)
Perms == {p \in [DOMAIN Asked -> DOMAIN Asked] : \A i, j \in DOMAIN p : p[i] = p[j] => i = j}
Init == /\ s \in {Tab(f) : f \in Tables} /\ r \in {Tab(f) : f \in Tables} /\ thr \in Thrs
        /\ pos = <<>> /\ pick = <<>> /\ told = <<>>
Shuffle == pos = <<>> /\ pos' \in (IF Fixed THEN {[i \in DOMAIN Asked |-> i]} ELSE Perms) /\ UNCHANGED <<s, r, thr, pick, told>>
Matching == {i \in DOMAIN pos : Asked[pos[i]] \in KeySet(s)}
Pick == /\ pos # <<>> /\ pick = <<>>
        /\ \E M \in SUBSET Matching : Cardinality(M) = Least(thr, Cardinality(Matching)) /\ pick' = <<M>>
        /\ UNCHANGED <<s, r, thr, pos, told>>
Tell == /\ pick # <<>> /\ told = <<>>
        /\ told' = <<[keys |-> {Asked[pos[i]] : i \in pick[1]},
                      dup |-> [i \in pick[1] |-> Count(r, Asked[IF DupOfPlace THEN i ELSE pos[i]])]]>>
        /\ UNCHANGED <<s, r, thr, pos, pick>>
Next == Shuffle \/ Pick \/ Tell
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == told # <<>> => /\ told[1].keys \in Allowed(s, r, thr)
                        /\ \A i \in pick[1] : told[1].dup[i] = Count(r, Asked[pos[i]])
\* keys the receiver can tell to be common: by place only if the order is the one it asked in
Knows == (IF Fixed THEN {Asked[i] : i \in Matching} ELSE {}) \cup (IF told = <<>> THEN {} ELSE told[1].keys)
Limited == Cardinality(Knows) <= thr
Done == <>(told # <<>>)
=============================================================================
