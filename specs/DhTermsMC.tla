------------------------------ MODULE DhTermsMC ------------------------------
(* A group in which it is so: exponents modulo a prime, inputs of different    *)
(* order of magnitude; the double masking of two parties meets.                *)
EXTENDS DhTerms
VARIABLE dummy
Q == 101
Base == [x \in Inputs |-> 7 + 13 * x]
Sec == [k \in Secrets |-> 2 + 3 * k]
MInit == val = {} /\ dummy = 0
Times(v, k) == (v * Sec[k]) % Q
MNext == /\ UNCHANGED dummy
         /\ \/ \E x \in Inputs : Hash(x, Base[x])
            \/ \E t \in val : \E k \in Secrets : (\A j \in Secrets : t[3][j] + (IF j = k THEN 1 ELSE 0) <= 1) /\ Mask(k, t[1], Times(t[1], k))
MSpec == MInit /\ [][MNext]_<<val, dummy>>
\* whoever masks first, the double masks of equal inputs are equal and those of different inputs are not
Meets == \A s, t \in val : (s[2] = t[2] /\ s[3] = t[3]) <=> s[1] = t[1]
Live == \A t \in val : \A k \in Secrets : t[3][k] = 0 => ENABLED Mask(k, t[1], Times(t[1], k))
=============================================================================
