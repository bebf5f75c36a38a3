---------------------------- MODULE BatchesTrace ----------------------------
(* Recorded reading of batch providers.  in.src: sequence of [d, dup] (and     *)
(* label), in.n: batch size.                                                   *)
EXTENDS TraceLib, Batches
VARIABLES ci, l
In == Cases[ci].in
Ev == Cases[ci].ev
E == Ev[l]
Init == ci \in {k \in 1..Len(Cases) : "none" \notin DOMAIN Cases[k].in} /\ l = 1 /\ Start(Cases[ci].in.src)
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
ERead == Is("Read") /\ Next_(E.n, E.xs)
EShuf == Is("Shuf") /\ Shuffled(In.n, E.xs)
\* everything was handed out, and reading on brings nothing more
EEnd == Is("End") /\ cnt = Len(src) /\ UNCHANGED btv
\* two readings of the same long source: orders, as places in the source
Sorted(s) == \A i \in 1..Len(s) - 1 : s[i] < s[i + 1]
EFresh == Is("Fresh") /\ E.a # E.b /\ ~Sorted(E.a) /\ ~Sorted(E.b) /\ UNCHANGED btv
EAgain == Is("Again") /\ src' = src /\ cnt' = 0 /\ used' = {}
Next == ERead \/ EShuf \/ EEnd \/ EFresh \/ EAgain
Spec == Init /\ [][Next]_<<ci, l, btv>>
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
