---------------------------- MODULE DhTermsTrace ----------------------------
(* Recorded hashing, masking and serialization; values are named by equality   *)
(* of their bytes.                                                             *)
EXTENDS TraceLib, DhTerms
VARIABLES ci, l
Ev == Cases[ci].ev
E == Ev[l]
Init == ci \in 1..Len(Cases) /\ l = 1 /\ val = {}
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
EHash == Is("Hash") /\ Hash(E.x, E.v)
EMask == Is("Mask") /\ Mask(E.k, E.v, E.w)
ESame == Is("Same") /\ Same(E.v, E.w)
\* private keys of independent cryptors differ; a set key is the key
EKey == Is("Key") /\ E.fresh /\ E.set /\ E.len /\ UNCHANGED val
Next == EHash \/ EMask \/ ESame \/ EKey
Spec == Init /\ [][Next]_<<ci, l, val>>
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
