--------------------------- MODULE SimplePirTrace ---------------------------
(* Real look-ups (entries named by small numbers), and questions taken apart *)
(* into secret and errors where the parameters are small enough for it.      *)
EXTENDS TraceLib, SimplePir
VARIABLES ci, l, db, pub, t
vars == <<ci, l, db, pub, t>>
Ev == Cases[ci].ev
In == Cases[ci].in
E == Ev[l]
Init == ci \in 1..Len(Cases) /\ l = 1 /\ db = <<>> /\ pub = <<>> /\ t = [n |-> 0, sum |-> 0, sq |-> 0, s |-> {}, last |-> <<>>, nz |-> [i \in 0..30 |-> 0]]
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
EOpen == Is("Open") /\ db' = E.db /\ UNCHANGED <<pub, t>>
ELook == Is("Look") /\ E.got = db[E.x + 1] /\ E.val = db[E.x + 1] /\ E.len * E.len = Len(db) /\ E.big = 0 /\ UNCHANGED <<db, pub, t>>
\* two questions for one place
EFresh == Is("Fresh") /\ E.same = 0 /\ UNCHANGED <<db, pub, t>>
ESmall == Is("Small") /\ pub' = [q |-> E.q, p |-> E.p, a |-> E.a] /\ UNCHANGED <<db, t>>
Root(v) == CHOOSE r \in 0..3000 : r * r >= v /\ (r = 0 \/ (r - 1) * (r - 1) < v)
\* errors as drawn from the distribution asked for: sum and sum of squares within seven standard deviations
Drawn(z) == LET v == In.sigma * In.sigma IN
  /\ Abs(z.sum) <= 7 * Root(z.n * v) + 1
  /\ Abs(z.sq - z.n * v) <= 7 * v * Root(2 * z.n) + (z.n * v) \div 50
  \* secrets seldom repeat
  /\ Cardinality(z.s) >= Len(Ev) \div 2
  \* no place goes without an error, in particular not the one asked for (0)
  /\ \A i \in 0..Len(pub.a) : z.nz[i] >= Len(Ev) \div 3
ELwe == /\ Is("Lwe") /\ UNCHANGED <<db, pub>>
        /\ E.s >= 0 /\ Len(E.err) = Len(pub.a)
        /\ \A i \in DOMAIN E.err : Abs(E.err[i]) <= In.lim
        /\ E.qu = Question(pub.a, E.s, E.err, E.col, pub.q, pub.p)
        /\ E.err # t.last
        /\ t' = [n |-> t.n + Len(E.err), sum |-> t.sum + SumSeq(E.err), sq |-> t.sq + SumSeq([i \in DOMAIN E.err |-> E.err[i] * E.err[i]]),
                 s |-> t.s \cup {E.s}, last |-> E.err,
                 nz |-> [i \in 0..30 |-> t.nz[i] + (IF (i = 0 /\ E.err[E.col] # 0) \/ (i \in DOMAIN E.err /\ E.err[i] # 0) THEN 1 ELSE 0)]]
        /\ l = Len(Ev) => Drawn(t')
Next == EOpen \/ ELook \/ EFresh \/ ESmall \/ ELwe
Spec == Init /\ [][Next]_vars
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
