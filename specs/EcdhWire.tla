------------------------------ MODULE EcdhWire ------------------------------
(* What crosses the wire in ECDH PSI, as symbolic terms.  m(x, p): key x      *)
(* hashed and masked by its owner p; d(x): masked by both.  A party can mask  *)
(* a term it holds once more with its own exponent, and compare terms; it     *)
(* cannot remove the peer's exponent or go back from a term to a key.         *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANT AnyAnswer      \* TRUE: answers also go to a party not entitled (to see the model notice)
VARIABLES keys,      \* [party -> set of keys]
          gets,      \* parties entitled to the result
          ownSent,   \* [party -> own keys already sent masked]
          back       \* [party -> keys of the peer already returned dual-masked]
P == {"s", "r"}
Peer(p) == IF p = "s" THEN "r" ELSE "s"
wireVars == <<keys, gets, ownSent, back>>
Start == ownSent = [p \in P |-> {}] /\ back = [p \in P |-> {}]
\* own keys, masked, each once
SendMasked(p, xs) == /\ xs \subseteq keys[p] \ ownSent[p]
                     /\ ownSent' = [ownSent EXCEPT ![p] = @ \cup xs] /\ UNCHANGED <<keys, gets, back>>
\* the peer's keys, masked a second time, only as an answer and only to a party that gets the result
SendDual(p, xs) == /\ Peer(p) \in gets \/ AnyAnswer
                   /\ xs \subseteq ownSent[Peer(p)] \ back[p]
                   /\ back' = [back EXCEPT ![p] = @ \cup xs] /\ UNCHANGED <<keys, gets, ownSent>>
\* what party p can work out: which of its keys the peer has
Learns(p) == {x \in keys[p] : x \in back[Peer(p)] /\ x \in ownSent[Peer(p)]}
Complete(p) == ownSent[p] = keys[p] /\ (Peer(p) \in gets => back[p] = keys[Peer(p)])
NothingForOthers == \A p \in P \ gets : Learns(p) = {}
NoMoreThanDue == \A p \in gets : Learns(p) \subseteq keys[p] \cap keys[Peer(p)]
AllDue == (\A p \in P : Complete(p)) => \A p \in gets : Learns(p) = keys[p] \cap keys[Peer(p)]
=============================================================================
