----------------------------- MODULE ApsiTrace -----------------------------
(* Real preparations, stopped ones among them, and real look-ups; labels are *)
(* named by hashes.                                                          *)
EXTENDS TraceLib, Apsi
VARIABLES ci, l
vars == <<ci, l>>
Ev == Cases[ci].ev
In == Cases[ci].in
E == Ev[l]
Init == ci \in 1..Len(Cases) /\ l = 1
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
EPrep == Is("Prep") /\ E.res \in (IF E.good THEN {"ok"} ELSE {"no"}) \cup (IF E.stop THEN {"dead"} ELSE {})
ELook == /\ Is("Look")
         /\ IF E.good /\ ~(E.hurt /\ E.r # "ok")
              THEN LET f == Found(In.db, E.ask) IN
                   /\ E.s = "ok" /\ E.r = "ok" /\ E.cnt = Len(f) /\ E.there
                   /\ SameBag(E.rows, f) /\ (E.hdr = In.hdr \/ (f = <<>> /\ E.hdr = <<"key">>))
              \* a store that lost something is not served as if that had never been there
              ELSE E.r # "ok" /\ (E.hurt \/ E.rows = <<>>) /\ E.cnt = -1
Next == EPrep \/ ELook
Spec == Init /\ [][Next]_vars
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
