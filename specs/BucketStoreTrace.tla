--------------------------- MODULE BucketStoreTrace ---------------------------
(* Recorded lives of bucket stores.                                            *)
EXTENDS TraceLib, BucketStore
VARIABLES ci, l
Ev == Cases[ci].ev
E == Ev[l]
Init == ci \in 1..Len(Cases) /\ l = 1 /\ Start
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
ENew == Is("New") /\ New(E.n) /\ E.bn = E.n
EPut == Is("Put") /\ Put(E.st, [d |-> E.d, dup |-> E.dup])
EFlush == Is("Flush") /\ Flush(E.st) /\ E.cnt = Len(items[E.st])
EReopen == Is("Reopen") /\ Reopen(E.st, E.k)
ETrunc == Is("Truncate") /\ Truncate(E.st, E.k)
ELoad == Is("Load") /\ Load(E.st, E.bs)
Next == ENew \/ EPut \/ EFlush \/ EReopen \/ ETrunc \/ ELoad
Spec == Init /\ [][Next]_<<ci, l, bsv>>
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
