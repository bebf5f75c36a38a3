------------------------------- MODULE UbWire -------------------------------
(* What crosses the wire in unbalanced PSI, as symbolic terms: f(x) = the     *)
(* server's keyed function of key x (cache), m(x) = x blinded by the client,  *)
(* d(x) = m(x) evaluated by the server.  The client can turn d(x) at position *)
(* n of the answer into f(x) and look it up in its copy of the cache; when    *)
(* it is not to learn the result, the answer comes in an order it cannot      *)
(* relate to its own.                                                         *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANT KeepOrder      \* TRUE: never shuffled (to see the model notice)
VARIABLES keys,      \* [party -> set of keys]
          sg, cg,    \* who gets the result
          cached,    \* keys whose f(x) the client holds, in order
          sent,      \* keys blinded in this online run, in order
          answer     \* keys evaluated in this online run, in order
ubw == <<keys, sg, cg, cached, sent, answer>>
Ran(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == Cardinality(Ran(s)) = Len(s)
Start == cached = <<>> /\ sent = <<>> /\ answer = <<>>
SendCache(xs) == /\ Ran(xs) \subseteq keys["s"] /\ Distinct(cached \o xs)
                 /\ cached' = cached \o xs /\ UNCHANGED <<keys, sg, cg, sent, answer>>
SendBlind(xs) == /\ Ran(xs) \subseteq keys["c"] /\ Distinct(sent \o xs)
                 /\ sent' = sent \o xs /\ UNCHANGED <<keys, sg, cg, cached, answer>>
\* the answer keeps the order only if the client gets the result; else it starts when all was received
InOrder(xs) == cg \/ KeepOrder => SubSeq(sent, Len(answer) + 1, Len(answer) + Len(xs)) = xs
SendAnswer(xs) == /\ Ran(xs) \subseteq Ran(sent) /\ Distinct(answer \o xs) /\ InOrder(xs)
                  /\ cg \/ KeepOrder \/ Ran(sent) = keys["c"]
                  /\ answer' = answer \o xs /\ UNCHANGED <<keys, sg, cg, cached, sent>>
Full == Ran(sent) = keys["c"] /\ Ran(answer) = keys["c"]
NextOnline == sent' = <<>> /\ answer' = <<>> /\ UNCHANGED <<keys, sg, cg, cached>>
\* which of its own keys the client can tell to be in the server's table: position n of the answer
\* belongs to its n-th key only if the order was kept
Knows == IF cg \/ KeepOrder THEN {sent[n] : n \in {n \in 1..Len(answer) : answer[n] \in Ran(cached)}} ELSE {}
=============================================================================
