----------------------------- MODULE UbWireTrace -----------------------------
(* Every message of recorded unbalanced PSI runs, as the terms found in it.   *)
EXTENDS TraceLib, UbWire
VARIABLES ci, l, prev      \* prev: the last complete answer
tv == <<ci, l, ubw, prev>>
Ev == Cases[ci].ev
In == Cases[ci].in
E == Ev[l]
Init == /\ ci \in {k \in 1..Len(Cases) : "none" \notin DOMAIN Cases[k].in} /\ l = 1 /\ Start /\ prev = <<>>
        /\ keys = [p \in {"s", "c"} |-> Range_(In[p])] /\ sg = In.sg /\ cg = In.cg
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
Cache == Is("Cache") /\ E.p = "s" /\ SendCache(E.xs) /\ UNCHANGED prev
\* the whole table was sent, and not in the order of the table (24! orders)
Sorted(s) == \A n \in 1..Len(s) - 1 : s[n] < s[n + 1]
Offline == Is("Offline") /\ Ran(cached) = keys["s"] /\ UNCHANGED <<ubw, prev>>
Blind == Is("Blind") /\ E.p = "c" /\ SendBlind(E.xs) /\ UNCHANGED prev
Answer == Is("Answer") /\ E.p = "s" /\ SendAnswer(E.xs) /\ UNCHANGED prev
\* a client that is not to learn the result gets answers in a fresh random order every time
Online == /\ Is("Online") /\ Full /\ NextOnline /\ prev' = answer
          /\ (~cg /\ In.wide) => answer # sent /\ answer # prev
Stable == Is("Stable") /\ E.n = 0 /\ UNCHANGED <<ubw, prev>>
View == Is("View") /\ E.a = E.b /\ E.diff = 0 /\ UNCHANGED <<ubw, prev>>
NoResult == Is("NoResult") /\ ~E.out /\ E.inter = -1 /\ E.ikey = 0 /\ UNCHANGED <<ubw, prev>>
Next == Cache \/ Offline \/ Blind \/ Answer \/ Online \/ Stable \/ View \/ NoResult
Spec == Init /\ [][Next]_tv
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
