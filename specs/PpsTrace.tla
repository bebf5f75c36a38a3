------------------------------ MODULE PpsTrace ------------------------------
(* Real look-ups with punctured sets: the places every question sums up, and *)
(* what the client made of the reply.  In tallied cases the questions are    *)
(* counted, relative to the place asked for: each place is in (S-1)/N of     *)
(* them, the one asked for not less than the others.                         *)
EXTENDS TraceLib
VARIABLES ci, l, db, n, s, seen, prev, t
vars == <<ci, l, db, n, s, seen, prev, t>>
P(n_, s_) == INSTANCE Pps WITH N <- n_, S <- s_
Ev == Cases[ci].ev
In == Cases[ci].in
E == Ev[l]
Zero(k) == [at |-> [d \in 0..(k - 1) |-> 0], sh |-> [d \in 0..(k - 1) |-> 0], pos |-> [d \in 0..(k - 1) |-> 0],
            joint |-> 0, q |-> 0, old |-> 0, oldN |-> 0, rep |-> 0, repN |-> 0]
Init == ci \in 1..Len(Cases) /\ l = 1 /\ db = <<>> /\ n = 4 /\ s = 2 /\ seen = {} /\ prev = <<>> /\ t = [q |-> Zero(1), r |-> Zero(1), hid |-> 0, all |-> 0]
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
EOpen == /\ Is("Open") /\ db' = E.db /\ n' = E.n /\ s' = E.s /\ seen' = {} /\ prev' = <<>>
         /\ t' = IF l = 1 THEN [q |-> Zero(E.n), r |-> Zero(E.n), hid |-> 0, all |-> 0] ELSE t
\* what is left of a set
Shape(v) == NoDup(v.set) /\ Len(v.set) = s - 1 /\ Range_(v.set) \subseteq 0..(n - 1) /\ v.d \in 0..(n - 1) /\ v.pos \in 0..(s - 1)
Answer(x, st, got, vs) == \/ st = "ok" /\ got = db[x + 1] /\ \A v \in vs : x \notin Range_(v.set)
                          \/ st = "abort"
\* one more question of a kind: where its places lie from x, its shift, the place left out of it
Add(z, v, x, old) ==
  LET V == Range_(v.set) IN
  [at |-> [d \in DOMAIN z.at |-> z.at[d] + (IF ((x + d) % n) \in V THEN 1 ELSE 0)],
   sh |-> [z.sh EXCEPT ![v.d] = @ + 1], pos |-> [z.pos EXCEPT ![v.pos] = @ + 1],
   \* places behind x in a question with a small shift
   joint |-> z.joint + (IF 2 * v.d < n THEN Cardinality({d \in 1..(n - 1) : 2 * d < n /\ ((x + d) % n) \in V}) ELSE 0),
   q |-> z.q + 1,
   old |-> z.old + Cardinality(V \cap old), oldN |-> z.oldN + Cardinality(old), rep |-> z.rep, repN |-> z.repN]
Half(k) == (k + 1) \div 2
Fair(z) == LET Nr(k, m, a, b) == P(n, s)!Near(k, m, a, b) IN
  /\ \A d \in DOMAIN z.at : Nr(z.at[d], z.q, s - 1, n) /\ Nr(z.sh[d], z.q, 1, n)
  /\ \A k \in 0..(s - 1) : Nr(z.pos[k], z.q, 1, s)
  /\ Nr(z.old, z.oldN, s - 1, n)
  /\ P(n, s)!NearW(z.joint, z.q * (Half(n) - 1), (s - 1) * Half(n), n * n, 3)
Tallied(w) == (In.tally /\ l = Len(Ev)) =>
  /\ Fair(w.q) /\ (w.r.q > 0 => Fair(w.r))
  \* (s-1) in n questions hide, some few find no set
  /\ w.hid * n >= w.all * (s - 1) \/ P(n, s)!Near(w.hid, w.all, s - 1, n)
  /\ w.hid * n <= w.all * (s + 1) \/ P(n, s)!Near(w.hid, w.all, s + 1, n)
EOne == /\ Is("One") /\ UNCHANGED <<db, n, s, seen, prev>>
        /\ Shape(E.q) /\ Answer(E.x, E.st, E.got, {E.q})
        /\ t' = IF In.tally THEN [t EXCEPT !.q = Add(@, E.q, E.x, {}), !.hid = @ + (IF E.st = "abort" THEN 1 ELSE 0), !.all = @ + 1] ELSE t
        /\ Tallied(t')
EMany == /\ Is("Many") /\ UNCHANGED <<db, n, s, prev>>
         /\ Shape(E.q) /\ Shape(E.r) /\ Answer(E.x, E.st, E.got, {E.q, E.r})
         /\ seen' = seen \cup {E.x}
         /\ t' = IF In.tally THEN [q |-> Add(t.q, E.q, E.x, seen \ {E.x}), r |-> Add(t.r, E.r, E.x, seen \ {E.x}),
                                   hid |-> t.hid + (IF E.st = "abort" THEN 1 ELSE 0), all |-> t.all + 1] ELSE t
         /\ Tallied(t')
Next == EOpen \/ EOne \/ EMany
Spec == Init /\ [][Next]_vars
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
