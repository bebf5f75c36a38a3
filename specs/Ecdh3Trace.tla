----------------------------- MODULE Ecdh3Trace -----------------------------
(* Every message of recorded three-party runs, as the terms found in it.      *)
EXTENDS TraceLib, Ecdh3
VARIABLES ci, l
Ev == Cases[ci].ev
In == Cases[ci].in
E == Ev[l]
Init == ci \in 1..Len(Cases) /\ l = 1 /\ sets = [p \in {"a", "b", "c"} |-> Range_(In.sets[p])] /\ Begin
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
Msg == Is("Msg") /\ Send([f |-> E.f, t |-> E.t, m |-> E.m], E.xs)
\* all was sent; a is answered in an order that is not its own (20! orders or more)
All == /\ Is("All") /\ Full /\ UNCHANGED e3
       /\ In.wide => seen[K("b", "a", "ab")] # seen[K("a", "b", "a")]
Stable == Is("Stable") /\ E.n = 0 /\ UNCHANGED e3
Next == Msg \/ All \/ Stable
Spec == Init /\ [][Next]_<<ci, l, e3>>
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
