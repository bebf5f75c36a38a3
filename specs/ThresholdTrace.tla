--------------------------- MODULE ThresholdTrace ----------------------------
(* Recorded limited runs, balanced and unbalanced: every party's end, its     *)
(* file, its counts, and the lists of places on the wire.                     *)
EXTENDS TraceLib, Threshold
VARIABLES ci, l, got, kk       \* kk: <<>> or <<the keys that matched>>
vars == <<ci, l, got, kk>>
Ev == Cases[ci].ev
In == Cases[ci].in
E == Ev[l]
Init == ci \in 1..Len(Cases) /\ l = 1 /\ got = <<>> /\ kk = <<>>
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
Big == "big" \in DOMAIN In
Gets(p) == IF p = "s" THEN In.gs ELSE In.gr
Other(p) == IF p = "s" THEN "r" ELSE "s"
Rep == [orig |-> E.orig, okey |-> E.okey, inter |-> E.inter, ikey |-> E.ikey]
\* limit the run to K
Tab(p, K) == IF p = "s" THEN Hide(In.s, Common(In.s, In.r) \ K) ELSE In.r
Judge(p, K) == LET own == Tab(p, K) peer == Tab(Other(p), K) IN
  /\ Rep = Report(own, peer, TRUE) /\ E.cnt = Counts(In.s, In.r, In.thr)
  /\ OutputOK(In.join, In.left = p, own, peer, In.both, E.rows)
End == /\ (Is("End") \/ Is("Early")) /\ E.st = "ok" /\ ~Big
       /\ E.out = Gets(E.p) /\ E.hdr
       /\ IF Gets(E.p)
          THEN \E K \in IF kk = <<>> THEN Allowed(In.s, In.r, In.thr) ELSE {kk[1]} : Judge(E.p, K) /\ kk' = <<K>>
          ELSE Rep = Report(Tab(E.p, {}), Tab(Other(E.p), {}), FALSE) /\ E.cnt = <<>> /\ UNCHANGED kk
       /\ got' = IF E.e = "End" THEN Append(got, [p |-> E.p, rows |-> E.rows]) ELSE got
RowsOf(p) == (CHOOSE g \in Range_(got) : g.p = p).rows
ZipUp == /\ Is("Zip") /\ {g.p : g \in Range_(got)} = {"s", "r"}
         /\ (~Big /\ In.align /\ In.gs /\ In.gr) => Aligned(Tab("s", kk[1]), In.r, RowsOf("s"), RowsOf("r"))
         /\ UNCHANGED <<got, kk>>
\* many rows, unique keys, INNER: each file holds as many common lines as allowed, both the same ones
BigKeys(p) == LET t == IF p = "s" THEN In.s ELSE In.r IN {t[E.rows[i]].k : i \in 1..Len(E.rows)}
BigN == Cardinality(KeySet(In.s) \cap KeySet(In.r))
BigOK(p) == LET ks == BigKeys(p)
                n == BigN
                m == Least(n, In.thr)
            IN /\ Rep = [orig |-> Len(IF p = "s" THEN In.s ELSE In.r), okey |-> Len(IF p = "s" THEN In.s ELSE In.r), inter |-> m, ikey |-> m]
               /\ E.cnt = <<n, m>> /\ Len(E.rows) = m /\ Cardinality(ks) = m /\ ks \subseteq (KeySet(In.s) \cap KeySet(In.r))
BigEnd == /\ Is("End") /\ E.st = "ok" /\ Big /\ E.out = Gets(E.p) /\ E.hdr
          /\ IF Gets(E.p) THEN BigOK(E.p) /\ kk' = <<BigKeys(E.p)>> /\ kk \in {<<>>, kk'} 
             ELSE E.cnt = <<>> /\ Rep.inter = -1 /\ UNCHANGED kk
          /\ got' = Append(got, [p |-> E.p, rows |-> <<>>])
\* the two limits differ: nobody gets a result beyond either
Differ == /\ Is("Differ") /\ UNCHANGED <<got, kk>> /\ E.s # "crash" /\ E.r # "crash"
          /\ \A n \in 1..Len(E.rows) : E.rows[n] <= Least(E.thr[1], E.thr[2])
Try == /\ Is("Try") /\ UNCHANGED <<got, kk>>
       /\ \A p \in {"s", "r"} : E[p] \in IF E.fault = p THEN {"ok", "err", "crash"} ELSE {"ok", "err"}
\* lists of places never name more than the limit
Index == Is("Index") /\ UNCHANGED <<got, kk>> /\ \A n \in 1..Len(E.n) : E.n[n] <= In.thr
\* the order of the answers of two runs: all keys, not the order asked, not each time the same
Order == /\ Is("Order") /\ UNCHANGED <<got, kk>>
         /\ \A n \in 1..2 : Len(E.to[n]) = Len(E.ask[n]) /\ Range_(E.to[n]) = Range_(E.ask[n]) /\ E.to[n] # E.ask[n]
         /\ {<<E.ask[1][n], E.to[1][n]>> : n \in 1..Len(E.to[1])} # {<<E.ask[2][n], E.to[2][n]>> : n \in 1..Len(E.to[2])}
Next == End \/ ZipUp \/ BigEnd \/ Differ \/ Try \/ Index \/ Order
Spec == Init /\ [][Next]_vars
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
