----------------------------- MODULE UbPsiTrace -----------------------------
(* A recorded history of unbalanced PSI: inputs, offline stages (possibly     *)
(* interrupted), online runs with what each party is left with.               *)
EXTENDS TraceLib, UbPsi
VARIABLES ci, l
tv == <<ci, l, ubVars>>
Ev == Cases[ci].ev
E == Ev[l]
Init == ci \in 1..Len(Cases) /\ l = 1 /\ inp = [p \in {"s", "c"} |-> <<>>] /\ Start
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
NewInput == Is("Input") /\ Input(E.p, E.t)
\* everybody stops; only the victim of a fault dies
Stops == \A p \in {"s", "c"} : E[p] \in IF E.fault = p THEN {"ok", "err", "crash"} ELSE {"ok", "err"}
AllOk == E.s = "ok" /\ E.c = "ok"
\* offline stages report no intersection
Counts(t) == \A n \in 1..Len(E.n) : E.n[n][2] = -1
OffOk == /\ Is("Off") /\ Stops /\ AllOk
         /\ CASE E.op = "gen" -> Gen /\ Counts(inp.s)
              [] E.op = "transfer" -> Transfer /\ Counts(cache.t)
              [] E.op = "offline" -> Offline /\ Counts(inp.s)
\* only a fault, or a cache that a fault spoilt, makes a stage fail
OffBad == /\ Is("Off") /\ Stops /\ ~AllOk
          /\ CASE E.op = "gen" -> E.fault # "none" /\ GenFails
               [] E.op = "transfer" -> (E.fault # "none" \/ cache.v = 0) /\ TransferFails
               [] E.op = "offline" -> E.fault # "none" /\ OfflineFails
Gets(p) == IF p = "s" THEN E.sg ELSE E.cg
Own(p) == IF p = "s" THEN cache'.t ELSE inp.c
Peer(p) == IF p = "s" THEN inp.c ELSE cache'.t
Rep(own, peer, gets) == [Report(own, peer, gets) EXCEPT !.inter = IF gets THEN @ ELSE -1]
\* (-9: this way of starting it does not report)
Good(x) == /\ x.out = Gets(x.p) /\ x.hdr
           /\ x.orig # -9 => [orig |-> x.orig, okey |-> x.okey, inter |-> x.inter, ikey |-> x.ikey] = Rep(Own(x.p), Peer(x.p), Gets(x.p))
           /\ Gets(x.p) => OutputOK(E.join, E.left = x.p, Own(x.p), Peer(x.p), TRUE, x.rows)
Judge == /\ \A n \in 1..2 : E.end[n].st = "ok" => Good(E.end[n])
         /\ (AllOk /\ E.sg /\ E.cg /\ E.align) => Aligned(cache'.t, inp.c, E.end[1].rows, E.end[2].rows)
\* an online run
OnRun == /\ Is("On") /\ ~E.full /\ Stops /\ (E.fault = "none" => AllOk)
         /\ CanRun /\ UNCHANGED ubVars /\ Judge
OnRefused == /\ Is("On") /\ ~E.full /\ Stops /\ ~AllOk
             /\ ~CanRun /\ UNCHANGED ubVars /\ (Stale \/ \A n \in 1..2 : E.end[n].st # "ok")
OnStale == Is("On") /\ ~E.full /\ Stops /\ Stale /\ UNCHANGED ubVars
\* both stages in one go
FullRun == Is("On") /\ E.full /\ Stops /\ AllOk /\ Offline /\ Judge
FullBad == /\ Is("On") /\ E.full /\ Stops /\ ~AllOk /\ E.fault # "none" /\ OfflineFails
           /\ ((\E n \in 1..2 : E.end[n].st = "ok") => cache' = Fresh /\ copy' = Fresh /\ Judge)
Next == NewInput \/ OffOk \/ OffBad \/ OnRun \/ OnRefused \/ OnStale \/ FullRun \/ FullBad
Spec == Init /\ [][Next]_tv
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
