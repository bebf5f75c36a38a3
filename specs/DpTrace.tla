------------------------------- MODULE DpTrace -------------------------------
EXTENDS TraceLib, DpPsi
VARIABLES ci, l
Ev == Cases[ci].ev
In == Cases[ci].in
E == Ev[l]
Init == ci \in 1..Len(Cases) /\ l = 1
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
Dp == /\ Is("Dp")
      /\ LET A == Range_(In.a)  B == Range_(In.b)  R == Range_(E.res)
             smp == Cardinality(B) - E.bsub  hit == Cardinality(R \cap A) + E.sub
         IN /\ Len(E.res) = Cardinality(R)
            /\ Possible(A, B, R, E.n, E.sub, E.up, E.bsub)
            /\ Forced(A, B, R, E.sub, E.up, E.bsub, In.p1, In.p2)
            /\ In.big => /\ Plausible(smp, Cardinality(B), In.p1)
                         /\ Plausible(hit, Cardinality(A \cap B), In.p1)
                         /\ Plausible(hit - E.sub, hit, In.p2)
                         /\ Plausible(E.up, smp - hit, 1000 - In.p2)
            \* drawn afresh each time
            /\ In.big /\ l > 1 => E.res # Ev[l - 1].res
Sure == /\ Is("Sure") /\ E.other = <<>>
        /\ Exactly(E.got, Inter([p \in DOMAIN In.sets |-> Range_(In.sets[p])]))
Next == Dp \/ Sure
Spec == Init /\ [][Next]_<<ci, l>>
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
