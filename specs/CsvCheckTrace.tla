---------------------------- MODULE CsvCheckTrace ----------------------------
(* What the check of an input file says.  E.rows: the key of each line (0: it  *)
(* has an empty field); E.bom: the file starts with a byte order mark.         *)
EXTENDS TraceLib, CsvCheck
VARIABLES ci, l, digs
Ev == Cases[ci].ev
E == Ev[l]
Init == ci \in 1..Len(Cases) /\ l = 1 /\ digs = {}
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
ECheck == /\ Is("Check") /\ E.left = 0
          /\ E.ok = Accepts(E.rows, E.bom, E.skip)
          /\ IF E.ok THEN /\ E.cnt = Len(E.rows)
                          /\ \A y \in digs : (y.h = E.h <=> y.rows = E.rows)
                          /\ digs' = digs \cup {[h |-> E.h, rows |-> E.rows]}
             ELSE UNCHANGED digs
Next == ECheck
Spec == Init /\ [][Next]_<<ci, l, digs>>
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
