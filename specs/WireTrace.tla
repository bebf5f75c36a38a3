------------------------------ MODULE WireTrace ------------------------------
(* Every message of a recorded ECDH run, as the terms found in it; what       *)
(* repeats from run to run; what a party without result is shown.             *)
EXTENDS TraceLib, EcdhWire
VARIABLES ci, l
tv == <<ci, l, keys, gets, ownSent, back>>
Ev == Cases[ci].ev
In == Cases[ci].in
E == Ev[l]
Init == /\ ci \in {k \in 1..Len(Cases) : "none" \notin DOMAIN Cases[k].in} /\ l = 1 /\ Start
        /\ keys = [p \in P |-> Range_(In[p])]
        /\ gets = IF In.bc THEN P ELSE {"r"}
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
\* own masked keys and answers never repeat inside a message
Masked == Is("Masked") /\ E.bad = 0 /\ NoDup(E.xs) /\ SendMasked(E.p, Range_(E.xs))
Dual == Is("Dual") /\ E.bad = 0 /\ NoDup(E.xs) /\ SendDual(E.p, Range_(E.xs))
\* a message in which no term was found
Plain == Is("Plain") /\ E.bad = 0 /\ UNCHANGED wireVars
\* everything was sent and everything due was answered
Over == /\ Is("Over") /\ \A p \in P : Complete(p)
        /\ \A p \in gets : Learns(p) = keys[p] \cap keys[Peer(p)]
        /\ NothingForOthers /\ UNCHANGED wireVars
\* nothing that is a fixed function of the keys shows up in every session
Stable == Is("Stable") /\ E.n = 0 /\ UNCHANGED wireVars
\* the party without result sees the same with either input of the peer
View == Is("View") /\ E.a = E.b /\ E.diff = 0 /\ UNCHANGED wireVars
NoResult == Is("NoResult") /\ ~E.out /\ E.inter = -1 /\ E.ikey = 0 /\ E.st = "ok" /\ UNCHANGED wireVars
Next == Masked \/ Dual \/ Plain \/ Over \/ Stable \/ View \/ NoResult
Spec == Init /\ [][Next]_tv
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
