------------------------------ MODULE PianoTrace ----------------------------
(* Real look-ups: db is what the entries hold (named by small numbers), msg  *)
(* the entries the server is asked to sum up, got what the client made of    *)
(* the reply.  In tallied cases the questions of many sessions are counted:  *)
(* they have to look drawn, whatever was asked for.                          *)
EXTENDS TraceLib
VARIABLES ci, l, db, k, c, seen, prev, t
vars == <<ci, l, db, k, c, seen, prev, t>>
P(k_, c_) == INSTANCE Piano WITH K <- k_, C <- c_
Ev == Cases[ci].ev
In == Cases[ci].in
E == Ev[l]
Zero == [own |-> 0, ownN |-> 0, old |-> 0, oldN |-> 0, prev |-> 0, prevN |-> 0, low |-> 0, high |-> 0, offN |-> 0]
Init == ci \in 1..Len(Cases) /\ l = 1 /\ db = <<>> /\ k = 1 /\ c = 1 /\ seen = {} /\ prev = <<>> /\ t = Zero
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
Count(S) == Cardinality(S)
\* questions, old entries and chunks in which two questions in a row agree: one in k each
Fair(z) == LET N(a, n) == P(k, c)!Near(a, n, k)
           IN N(z.own, z.ownN) /\ N(z.old, z.oldN) /\ N(z.prev, z.prevN) /\ N(z.low, z.offN) /\ N(z.high, z.offN)
EOpen == /\ Is("Open") /\ db' = E.db /\ k' = E.k /\ c' = E.c /\ seen' = {} /\ prev' = <<>> /\ UNCHANGED t
         /\ E.sets = E.c /\ Len(E.db) = E.n /\ E.c * E.k >= E.n /\ E.most > 0
\* one entry of every chunk, whatever is asked
Add(z) == LET m == Range_(E.msg)
          IN [own |-> z.own + (IF E.x \in m THEN 1 ELSE 0), ownN |-> z.ownN + 1,
              old |-> z.old + Count((seen \ {E.x}) \cap m), oldN |-> z.oldN + Count(seen \ {E.x}),
              prev |-> z.prev + (IF prev = <<>> THEN 0 ELSE Count({i \in 1..c : prev[i] = E.msg[i]})),
              prevN |-> z.prevN + (IF prev = <<>> THEN 0 ELSE c),
              low |-> z.low + Count({i \in 1..c : E.msg[i] % k = 0}), high |-> z.high + Count({i \in 1..c : E.msg[i] % k = k - 1}), offN |-> z.offN + c]
Asked == /\ P(k, c)!Shape(E.msg)
         /\ seen' = seen \cup {E.x} /\ prev' = E.msg /\ UNCHANGED <<db, k, c>>
         /\ t' = IF In.tally THEN Add(t) ELSE t
         /\ (In.tally /\ l = Len(Ev)) => Fair(t')
EAsk == Is("Ask") /\ E.got = db[E.x + 1] /\ Asked
ELost == Is("Lost") /\ Asked
Next == EOpen \/ EAsk \/ ELost
Spec == Init /\ [][Next]_vars
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
