----------------------------- MODULE CuckooTrace -----------------------------
(* What real insertions left behind.                                          *)
EXTENDS TraceLib, Cuckoo
VARIABLES ci, l
Ev == Cases[ci].ev
E == Ev[l]
Init == ci \in 1..Len(Cases) /\ l = 1
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
\* E.h: candidate bins per input, as computed from the code words; E.bins; E.stash; E.min: least hash number leading to the bin
EPlace == /\ Is("Place") /\ E.sane = (Len(E.stash) + Cardinality({b \in DOMAIN E.bins : E.bins[b] # <<>>}) = Len(E.h)) /\ E.nb = Len(E.bins) /\ Placed(E.bins, E.stash, E.h) /\ Len(E.stash) <= E.cap
          /\ \A b \in DOMAIN E.bins : E.bins[b] # <<>> =>
               E.min[b] = CHOOSE k \in DOMAIN E.h[E.bins[b][1]] : /\ E.h[E.bins[b][1]][k] = b
                                                                   /\ \A j \in 1..k - 1 : E.h[E.bins[b][1]][j] # b
\* an insertion that does not fit says so; with the parameters chosen for the number of inputs it fits
EFull == Is("Full") /\ ~E.selected
Next == EPlace \/ EFull
Spec == Init /\ [][Next]_<<ci, l>>
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
