------------------------------ MODULE DhTerms ------------------------------
(* Points as terms: an input hashed to the curve and the multiset of private  *)
(* keys applied to it.  The value of a term does not depend on the order the  *)
(* keys were applied in, and different terms have different values.           *)
EXTENDS Naturals, FiniteSets
CONSTANTS Inputs, Secrets
VARIABLE val           \* {<<value, input, [key -> times]>>}
Term(v) == CHOOSE t \in val : t[1] = v
Known(v) == \E t \in val : t[1] = v
Fits(v, x, b) == \A t \in val : (t[1] = v) <=> (t[2] = x /\ t[3] = b)
Learn(v, x, b) == Fits(v, x, b) /\ val' = val \cup {<<v, x, b>>}
None == [k \in Secrets |-> 0]
Hash(x, v) == Learn(v, x, None)
Mask(k, v, w) == Known(v) /\ LET t == Term(v) IN Learn(w, t[2], [t[3] EXCEPT ![k] = @ + 1])
\* writing a point down and reading it back
Same(v, w) == Known(v) /\ v = w /\ UNCHANGED val
=============================================================================
