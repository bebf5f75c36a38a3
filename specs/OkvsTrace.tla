------------------------------ MODULE OkvsTrace ------------------------------
(* What real stores give back.  Values are named by small numbers: 0 stands  *)
(* for a value that was never put in.                                        *)
EXTENDS TraceLib, Okvs
VARIABLES ci, l, store, rnd
Ev == Cases[ci].ev
E == Ev[l]
Init == ci \in 1..Len(Cases) /\ l = 1 /\ store = <<>> /\ rnd = FALSE
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
\* a store for the keys 1..Len(E.vals)
EPut == Is("Put") /\ store' = E.vals /\ rnd' = E.rnd
\* keys outside of the set give, when the free columns are drawn, nothing that was put in
EGet == /\ Is("Get") /\ UNCHANGED <<store, rnd>>
        /\ Len(E.got) = Len(E.keys)
        /\ \A i \in DOMAIN E.keys : IF E.keys[i] <= Len(store) THEN E.got[i] = store[E.keys[i]] ELSE rnd => E.got[i] = 0
\* many small stores, one after the other
EMany == Is("Many") /\ E.got = E.put /\ UNCHANGED <<store, rnd>>
\* a store too big to list: the keys that gave their value
EBig == Is("Big") /\ E.right = E.n /\ UNCHANGED <<store, rnd>>
\* two stores of the same items, drawn apart: keys outside of the set answered alike, equal entries, entries left empty
EAgain == Is("Again") /\ rnd /\ E.alike = 0 /\ E.same = 0 /\ E.zeros = 0 /\ UNCHANGED <<store, rnd>>
Next == EPut \/ EGet \/ EMany \/ EBig \/ EAgain
Spec == Init /\ [][Next]_<<ci, l, store, rnd>>
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
