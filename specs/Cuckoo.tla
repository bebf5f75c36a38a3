------------------------------- MODULE Cuckoo -------------------------------
(* Placing inputs in bins: every input goes to one of its candidate bins; an  *)
(* input that is pushed out tries its next candidate; what is still homeless  *)
(* after enough rounds goes to the stash.                                     *)
EXTENDS Naturals, Sequences, FiniteSets
\* the outcome: bins: [bin -> <<input, hash number>> or <<>>], stash: sequence of inputs, h: [input -> [hash number -> bin]]
Placed(bins, stash, h) ==
  LET inb == {b \in DOMAIN bins : bins[b] # <<>>} IN
  /\ \A b \in inb : bins[b][1] \in DOMAIN h /\ bins[b][2] \in DOMAIN h[bins[b][1]] /\ h[bins[b][1]][bins[b][2]] = b
  /\ \A i \in DOMAIN h : Cardinality({b \in inb : bins[b][1] = i}) + Cardinality({k \in DOMAIN stash : stash[k] = i}) = 1
  /\ \A k \in DOMAIN stash : stash[k] \in DOMAIN h
=============================================================================
