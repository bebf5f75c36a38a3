------------------------------ MODULE PsiAgree ------------------------------
(* What must hold of two parties that meet: each checks its own              *)
(* configuration, tells the other one what both must share, and goes on only *)
(* if roles differ and everything shared is equal.  Work is done in stages    *)
(* that end together; a party that cannot go on leaves, and whoever waits for *)
(* one that left, leaves as well.                                             *)
EXTENDS Naturals, FiniteSets
CONSTANTS Shared, Private, Values, Stages
P == {"s", "r"}
Peer(p) == IF p = "s" THEN "r" ELSE "s"
VARIABLES conf,   \* [party -> [field -> value]]
          valid,  \* parties whose own configuration makes sense
          at,     \* [party -> "start" | 0..Stages (stages completed) | "left" | "done"]
          flag,   \* [party -> announcements made: 0 none, 1 config, k+1 stage k over]
          out     \* parties that sent something derived from keys
vars == <<conf, valid, at, flag, out>>
Agree == \A f \in Shared : conf["s"][f] = conf["r"][f]
Init == /\ conf \in [P -> [Shared \cup Private -> Values]] /\ valid \in SUBSET P
        /\ at = [p \in P |-> 0] /\ flag = [p \in P |-> 0] /\ out = {}
Here(p) == at[p] \in 0..Stages
Gone(p) == at[p] = Stages + 1
Leave(p) == Here(p) /\ at' = [at EXCEPT ![p] = Stages + 1] /\ UNCHANGED <<conf, valid, flag, out>>
SelfCheck(p) == Here(p) /\ flag[p] = 0 /\ p \notin valid /\ Leave(p)
Hello(p) == Here(p) /\ flag[p] = 0 /\ p \in valid /\ flag' = [flag EXCEPT ![p] = 1] /\ UNCHANGED <<conf, valid, at, out>>
Refuse(p) == Here(p) /\ flag[p] = 1 /\ flag[Peer(p)] >= 1 /\ ~Agree /\ Leave(p)
Work(p) == /\ Here(p) /\ flag[p] = at[p] + 1 /\ flag[Peer(p)] >= at[p] + 1 /\ Agree /\ at[p] < Stages
           /\ at' = [at EXCEPT ![p] = @ + 1] /\ flag' = [flag EXCEPT ![p] = @ + 1] /\ out' = out \cup {p} /\ UNCHANGED <<conf, valid>>
Finish(p) == Here(p) /\ at[p] = Stages /\ flag[Peer(p)] >= Stages + 1 /\ at' = [at EXCEPT ![p] = Stages + 2] /\ UNCHANGED <<conf, valid, flag, out>>
\* whoever waits for somebody who left gives up
GiveUp(p) == Here(p) /\ Gone(Peer(p)) /\ flag[p] > 0 /\ flag[Peer(p)] < flag[p] /\ Leave(p)
Fail(p) == Here(p) /\ Leave(p)   \* anything else that can go wrong
Next == \E p \in P : SelfCheck(p) \/ Hello(p) \/ Refuse(p) \/ Work(p) \/ Finish(p) \/ GiveUp(p) \/ Fail(p)
Proper == \E p \in P : SelfCheck(p) \/ Hello(p) \/ Refuse(p) \/ Work(p) \/ Finish(p) \/ GiveUp(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Proper)
-----------------------------------------------------------------------------
NothingBeforeAgreement == out # {} => Agree /\ valid = P
NoFalseSuccess == \A p \in P : at[p] = Stages + 2 => Agree /\ valid = P /\ flag[Peer(p)] = Stages + 1
AllStop == <>(\A p \in P : at[p] > Stages)
=============================================================================
