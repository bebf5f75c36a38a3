---------------------------- MODULE KeyTableTrace ----------------------------
(* Recorded key extraction: the sorted file, the key list read in batches of   *)
(* any size, the counts, and the digests of several tables.                    *)
EXTENDS TraceLib, KeyTable
VARIABLES ci, l, s, digs       \* s: the sorted table; digs: digests so far
Ev == Cases[ci].ev
E == Ev[l]
Init == ci \in 1..Len(Cases) /\ l = 1 /\ s = <<>> /\ digs = {}
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
ESort == Is("Sort") /\ SortedFrom(E.t, E.s) /\ s' = E.s /\ UNCHANGED digs
\* keys promised to be unique: the file as it stands
EPlain == Is("Plain") /\ s' = E.t /\ UNCHANGED digs
Plainly(rec) == /\ Len(rec) = Len(s)
                /\ \A n \in 1..Len(rec) : rec[n].k = s[n].k /\ rec[n].start = n - 1 /\ rec[n].dup = 0
EKeys == /\ \/ Is("Keys") /\ KeysOf(s, E.rec)
            \/ Is("UKeys") /\ Plainly(E.rec)
         /\ UNCHANGED <<s, digs>>
         /\ E.orig = Len(s) /\ E.uniq = Len(E.rec) /\ E.dups = Cardinality({n \in 1..Len(E.rec) : E.rec[n].dup > 0})
\* equal digests exactly for equal contents: sorted tables by their keys and counts, others also by order
EDig == Is("Digest") /\ LET x == [h |-> E.h, c |-> IF E.sorted THEN <<"bag", Bag(s)>> ELSE <<"seq", [i \in 1..Len(s) |-> s[i].k]>>] IN
        /\ \A y \in digs : y.c[1] = x.c[1] => (y.h = x.h <=> y.c = x.c)
        /\ digs' = digs \cup {x} /\ UNCHANGED s
Next == ESort \/ EPlain \/ EKeys \/ EDig
Spec == Init /\ [][Next]_<<ci, l, s, digs>>
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
