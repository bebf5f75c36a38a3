-------------------------------- MODULE DpPsi --------------------------------
(* Intersection with noise: the receiver takes part with a sample S of its    *)
(* set B (each item with probability p1); of what both hold it keeps each     *)
(* item with probability p2, and of the rest of S it takes each for common    *)
(* with probability 1-p2.  Nothing is reported when all of S is common.       *)
EXTENDS MpPsi
\* what is reported (R, n: number told to the other side, sub, up: dropped and added, bsub: left out of the sample)
Possible(A, B, R, n, sub, up, bsub) ==
  /\ R \subseteq B /\ n = Cardinality(R) /\ bsub \in 0..Cardinality(B)
  /\ LET hit == Cardinality(R \cap A) smp == Cardinality(B) - bsub
     IN \/ /\ hit + sub <= Cardinality(A \cap B) /\ Cardinality(R \ A) = up
           /\ smp - hit - sub \in (IF smp = 0 THEN 0 ELSE 1)..Cardinality(B \ A) /\ up <= smp - hit - sub
           /\ smp > 0
        \* everything in the sample is common: nothing is said
        \/ R = {} /\ sub = 0 /\ up = 0 /\ smp <= Cardinality(A \cap B)
\* the values that certainty forces
Forced(A, B, R, sub, up, bsub, p1, p2) ==
  /\ p1 = 1000 => bsub = 0
  /\ p1 = 0 => bsub = Cardinality(B)
  /\ p2 = 1000 => sub = 0 /\ up = 0
  /\ p1 = 1000 /\ p2 = 1000 => R = IF B \subseteq A THEN {} ELSE A \cap B
Root(v) == CHOOSE t \in 0..200 : t * t >= v /\ (t = 0 \/ (t - 1) * (t - 1) < v)
\* k of n trials with probability p / 1000 each: off by at most seven standard deviations
Plausible(k, n, p) == LET m == (n * p) \div 1000  d == IF k > m THEN k - m ELSE m - k
                      IN d <= 2 + Root(49 * ((m * (1000 - p)) \div 1000))
=============================================================================
