---------------------------- MODULE SpiralTrace ----------------------------
(* Real look-ups: rows named by a hash of their bytes, cipher texts by what  *)
(* statistics of them show.                                                  *)
EXTENDS TraceLib, Spiral
VARIABLES ci, l, P, dim, sv, file
vars == <<ci, l, P, dim, sv, file>>
Ev == Cases[ci].ev
In == Cases[ci].in
E == Ev[l]
None == [st |-> "none", rows |-> <<>>, bytes |-> 0]
Init == ci \in 1..Len(Cases) /\ l = 1 /\ P = [n |-> 0] /\ dim = [rows |-> 0, bytes |-> 0] /\ sv = None /\ file = None
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
\* a database of up to 1024 plaintexts always has a shape; it depends on nothing but the database and the parameters
EShape == /\ Is("Shape") /\ P' = E.P /\ dim' = [rows |-> E.rows, bytes |-> E.bytes] /\ UNCHANGED <<sv, file>>
          /\ LET pts == Plaintexts(E.P, E.rows, E.bytes) IN
             IF E.ok THEN E.pts = pts /\ E.same /\ Fits(E.P, pts, E.v1, E.v2, E.tn)
                     ELSE pts > 1024
EGen == /\ Is("Gen") /\ UNCHANGED <<P, dim, file>>
        /\ IF E.k = "wrong" THEN ~E.ok /\ UNCHANGED sv
           ELSE E.ok /\ sv' = [st |-> E.k, rows |-> E.rows, bytes |-> E.bytes]
EDump == /\ Is("Dump") /\ UNCHANGED <<P, dim, sv>>
         /\ E.ok <=> sv.st = "plain"
         /\ file' = IF E.ok THEN sv ELSE file
ELoad == /\ Is("Load") /\ UNCHANGED <<P, dim, file>>
         /\ E.ok <=> file.st # "none"
         /\ sv' = IF E.ok THEN [file EXCEPT !.st = "look"] ELSE sv
EAsk == /\ Is("Ask") /\ UNCHANGED <<P, dim, sv, file>>
        /\ IF sv.st = "look" /\ E.x < Len(sv.rows)
             THEN E.ok /\ E.got = sv.rows[E.x + 1] /\ E.len = sv.bytes
             ELSE ~E.ok
ECut == /\ Is("Cut") /\ UNCHANGED <<P, dim, sv, file>>
        /\ LET n == Len(E.row) k == Up(n, E.len) IN
           /\ E.back = E.row
           /\ E.lens = (IF n <= E.len THEN <<n>> ELSE [i \in 1..k |-> E.len])
           /\ E.content = (IF n <= E.len THEN E.row ELSE [i \in 1..(k * E.len) |-> IF i <= n THEN E.row[i] ELSE 0])
\* no two clients have a key in common; a key has 256 places each of 1 and -1
EKeys == /\ Is("Keys") /\ UNCHANGED <<P, dim, sv, file>>
         /\ E.n = E.distinct
         /\ Cardinality({i \in DOMAIN E.key : E.key[i] = 1}) = 256
         /\ Cardinality({i \in DOMAIN E.key : E.key[i] = -1}) = 256
         /\ Cardinality({i \in DOMAIN E.key : E.key[i] = 0}) = Len(E.key) - 512
Root(v) == CHOOSE r \in 0..3000 : r * r >= v /\ (r = 0 \/ (r - 1) * (r - 1) < v)
Abs_(x) == IF x < 0 THEN -x ELSE x
\* differences of two errors of width 6.4 (variance 6.52 each): never beyond twice four widths
ENoise == /\ Is("Noise") /\ UNCHANGED <<P, dim, sv, file>>
          /\ E.n > 2000 /\ E.max <= 52
          /\ Abs_(E.sum) <= 7 * Root(14 * E.n)
          /\ LET want == 13 * E.n + E.n \div 25 IN Abs_(E.sq - want) <= 7 * 19 * Root(E.n)
EFresh == Is("Fresh") /\ E.seeds = E.asks /\ E.same = 0 /\ E.sizes = 1 /\ UNCHANGED <<P, dim, sv, file>>
\* what the seed sent along tells of the noise is no more than chance
EGuess == Is("Guess") /\ 4 * E.hit <= E.n /\ UNCHANGED <<P, dim, sv, file>>
\* cipher texts lie everywhere alike
EEven == /\ Is("Even") /\ UNCHANGED <<P, dim, sv, file>>
         /\ Len(E.cnt) = 16 /\ SumSeq(E.cnt) = E.n
         /\ \A i \in 1..16 : Abs_(E.cnt[i] - E.n \div 16) <= 7 * Root(E.n \div 16) + 1
Next == EShape \/ EGen \/ EDump \/ ELoad \/ EAsk \/ ECut \/ EKeys \/ ENoise \/ EFresh \/ EEven \/ EGuess
Spec == Init /\ [][Next]_vars
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
