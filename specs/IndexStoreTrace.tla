--------------------------- MODULE IndexStoreTrace ---------------------------
(* Recorded lives of an index file: writers opened, used, closed or killed,   *)
(* and readers started at any time.                                           *)
EXTENDS TraceLib, IndexStore
VARIABLES ci, l
Ev == Cases[ci].ev
E == Ev[l]
Init == ci \in 1..Len(Cases) /\ l = 1 /\ Start
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
EOpen == Is("Open") /\ Open(E.trunc)
EWrite == Is("Write") /\ Write(E.xs) /\ E.pend = Len(pend) + Len(E.xs)
ECommit == Is("Commit") /\ Commit
EClose == Is("Close") /\ Close
ECrash == Is("Crash_") /\ Crash
ERead == Is("Read") /\ Read(E.xs) /\ E.n = Len(E.xs) /\ ~E.more
\* indices kept in memory come out in ascending order, each with its own count
EMem == /\ Is("Mem") /\ SameBag(E.xs, E.ys) /\ \A i \in 1..Len(E.ys) - 1 : E.ys[i][1] < E.ys[i + 1][1]
        /\ UNCHANGED isv
Next == EOpen \/ EWrite \/ ECommit \/ EClose \/ ECrash \/ ERead \/ EMem
Spec == Init /\ [][Next]_<<ci, l, isv>>
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
