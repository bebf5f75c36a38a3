------------------------------ MODULE TraceLib ------------------------------
(* Common part of every trace specification.  The file named by $TRACE holds *)
(* one recorded execution ("case") of the implementation per line:           *)
(*    [i |-> number, key |-> name, in |-> inputs, ev |-> <<events>>]          *)
(* A trace specification keeps <<ci, l>>: which case it follows and how many *)
(* events of it are explained.  A case is accepted iff a state with all its  *)
(* events explained is reachable; that state prints <<"ACC", ci>>.           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt, Functions
Cases == ndJsonDeserialize(IOEnv.TRACE)
Verbose == "VERBOSE" \in DOMAIN IOEnv
Range_(s) == {s[k] : k \in 1..Len(s)}
\* s holds the same elements with the same multiplicities as t
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A x \in Range_(s) :
                       Cardinality({k \in 1..Len(s) : s[k] = x}) = Cardinality({k \in 1..Len(t) : t[k] = x})
NoDup(s) == Cardinality(Range_(s)) = Len(s)
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
=============================================================================
