------------------------------ MODULE Psi2Trace ------------------------------
(* One recorded two-party run: how each party ended, its report, its file.    *)
EXTENDS TraceLib, PsiJoin
VARIABLES ci, l, got
Ev == Cases[ci].ev
In == Cases[ci].in
E == Ev[l]
Init == ci \in 1..Len(Cases) /\ l = 1 /\ got = <<>>
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
Big == "big" \in DOMAIN In
Own(p) == IF p = "s" THEN In.s ELSE In.r
Peer(p) == IF p = "s" THEN In.r ELSE In.s
IsLeft(p) == In.left = p
Gets(p) == p = "r" \/ In.bc
\* large tables have unique keys and are joined INNER: sets suffice
BigRows(p) == LET o == Own(p)
                  q == Peer(p)
                  pk == {q[i].k : i \in Idx(q)}
              IN {o[i].row : i \in {i \in Idx(o) : o[i].k \in pk}}
RepBig(p, n) == [orig |-> Len(Own(p)), okey |-> Len(Own(p)), inter |-> n, ikey |-> n]
KeyFn(t) == [x \in Idx(t) |-> t[x].k]   \* large tables: row identities are positions
\* the task was started before, and its input or configuration has changed since
Changed == IF "change" \in DOMAIN In THEN In.change ELSE "none"
MustRefuse(p) == Changed \in {"keys", "config"} /\ p \in Range_(In.rec)
MayRefuse == Changed \notin {"none", "payload"}
Refused == Is("End") /\ E.st = "err" /\ MayRefuse /\ UNCHANGED got
End == /\ (Is("End") \/ Is("Early")) /\ E.st = "ok"
       /\ LET p == E.p
              rep == [orig |-> E.orig, okey |-> E.okey, inter |-> E.inter, ikey |-> E.ikey] IN
          /\ ~MustRefuse(p)
          /\ E.out = Gets(p) /\ E.hdr
          /\ IF Big
             THEN LET br == BigRows(p)
                      er == Range_(E.rows)
                  IN /\ rep = IF Gets(p) THEN RepBig(p, Cardinality(br)) ELSE [RepBig(p, 0) EXCEPT !.inter = -1]
                     /\ Gets(p) => er = br /\ Cardinality(er) = Len(E.rows)
             ELSE /\ rep = Report(Own(p), Peer(p), Gets(p))
                  /\ Gets(p) => OutputOK(In.join, IsLeft(p), Own(p), Peer(p), In.bc, E.rows)
          /\ got' = IF E.e = "End" THEN Append(got, [p |-> p, rows |-> E.rows]) ELSE got
\* an attempt that something happened to: every party stops, only the victim dies, and no one is left waiting
Try == /\ Is("Try")
       /\ \A p \in {"s", "r"} : E[p] \in IF E.fault = p THEN {"ok", "err", "crash"} ELSE {"ok", "err"}
       /\ UNCHANGED got
\* a party that got through an attempt in which the other one failed has the right result
RowsOf(p) == (CHOOSE g \in Range_(got) : g.p = p).rows
ZipUp == /\ Is("Zip") /\ ~MayRefuse /\ {g.p : g \in Range_(got)} = {"s", "r"}
         /\ (In.align /\ In.bc) =>
              IF Big THEN LET ks == KeyFn(In.s) kr == KeyFn(In.r) rs == RowsOf("s") rr == RowsOf("r") IN
                          Len(rs) = Len(rr) /\ \A n \in 1..Len(rs) : ks[rs[n]] = kr[rr[n]]
              ELSE Aligned(In.s, In.r, RowsOf("s"), RowsOf("r"))
         /\ UNCHANGED got
NoZip == Is("Zip") /\ MayRefuse /\ UNCHANGED got
Next == Refused \/ NoZip \/ End \/ Try \/ ZipUp
Spec == Init /\ [][Next]_<<ci, l, got>>
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
