------------------------------- MODULE MpTrace -------------------------------
(* Results of real multi-party runs, the files they write, and what repeats   *)
(* on the wire.                                                               *)
EXTENDS TraceLib, MpPsi
VARIABLES ci, l, order      \* order: lines of the first sorted output
Ev == Cases[ci].ev
In == Cases[ci].in
E == Ev[l]
Init == ci \in 1..Len(Cases) /\ l = 1 /\ order = <<>>
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
Sets == [p \in DOMAIN In.sets |-> Range_(In.sets[p])]
Mine == Owed(E.p, Sets, In.recv, In.bc)
End == Is("End") /\ Exactly(E.res, Mine) /\ UNCHANGED order
Over == Is("Over") /\ E.timeouts = 0 /\ UNCHANGED order
Stable == Is("Stable") /\ E.n = 0 /\ UNCHANGED order
\* a party with result writes its own lines of the common keys; sorted outputs of all parties correspond
File == LET m == TLCEval(Mine) IN
        /\ Is("File") /\ E.left = 0 /\ E.cols /\ E.orig = Len(In.sets[E.p + 1])
        /\ E.there = Entitled(E.p, In.recv, In.bc)
        /\ IF E.there THEN /\ Exactly(E.rows, m) /\ E.inter = Len(E.rows)
                           /\ ~In.sort => E.rows = SelectSeq(In.sets[E.p + 1], LAMBDA x : x \in m)
                           /\ In.sort => order \in {<<>>, E.rows}
           ELSE E.inter = -1
        /\ order' = IF E.there /\ In.sort THEN E.rows ELSE order
\* operators: per bucket, the common items with the peer's count
Bk(b, p) == {<<In.buckets[b][p][i][1], In.buckets[b][p][i][2]>> : i \in DOMAIN In.buckets[b][p]}
OwedOp(b, p) == IF Entitled(p, In.recv, In.bc) THEN {x \in Bk(b, 2 - p) : \E y \in Bk(b, p + 1) : y[1] = x[1]} ELSE {}
Op == /\ Is("Op") /\ Len(E.res) = Len(In.buckets) /\ UNCHANGED order
      /\ \A b \in DOMAIN E.res :
           /\ {<<E.res[b][i][1], E.res[b][i][2]>> : i \in DOMAIN E.res[b]} = OwedOp(b, E.p)
           /\ Len(E.res[b]) = Cardinality(OwedOp(b, E.p))
Next == End \/ Over \/ Stable \/ File \/ Op
Spec == Init /\ [][Next]_<<ci, l, order>>
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
