----------------------------- MODULE LaunchTrace -----------------------------
(* Recorded tasks: started through the API, a configuration or main(), by     *)
(* Kuscia, or handed to the private look-up.                                  *)
EXTENDS TraceLib, Launch
MP == INSTANCE MpPsi
VARIABLES ci, l, got
Ev == Cases[ci].ev
In == Cases[ci].in
E == Ev[l]
Init == ci \in 1..Len(Cases) /\ l = 1 /\ got = <<>>
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
\* ---- two parties ----
Mine(p) == In.tab[p + 1]
Theirs(p) == In.tab[2 - p]
EndRun == /\ Is("End") /\ Agreed(In.conf) /\ E.st = "ok"
          /\ LET p == E.p  c == In.conf[p + 1]  g == Gets(In.conf, p)
                 rep == Report(Mine(p), Theirs(p), g) IN
             /\ E.out = g /\ E.hdr /\ E.trace /\ E.rec = c.rec
             /\ \A n \in 1..Len(E.rep) : [orig |-> E.rep[n].orig, okey |-> E.rep[n].okey, inter |-> E.rep[n].inter, ikey |-> E.rep[n].ikey] = rep
             /\ g => OutputOK(c.join, IsLeft(In.conf, p), Mine(p), Theirs(p), c.bc, E.rows)
             /\ got' = Append(got, E.rows)
EndRefused == Is("End") /\ ~Agreed(In.conf) /\ E.st = "err" /\ ~E.out /\ UNCHANGED got
ZipUp ==
  /\ Is("Zip") /\ UNCHANGED got
  /\ (Len(got) = 2 /\ In.conf[1].bc /\ In.conf[1].align /\ In.conf[2].align) => Aligned(In.tab[1], In.tab[2], got[1], got[2])
\* ---- the older protocols ----
Sets == [p \in DOMAIN In.sets |-> Range_(In.sets[p])]
\* (the differentially private one, told to keep and to add nothing, finds nothing where the receiver has nothing else)
\* (where the two lists of keys are the same, line by line, nothing is left to hide: all is found)
Hidden == In.type = "dp" /\ In.sets[1] # In.sets[2] /\ (~In.keep \/ Sets[In.recv + 1] \subseteq Sets[2 - In.recv])
Ran == LET m == TLCEval(IF Hidden THEN {} ELSE MP!Owed(E.p, Sets, In.recv, In.bc)) IN
       /\ Is("Ran") /\ In.twice = -1 /\ E.left = 0 /\ E.cols
       /\ E.there = MP!Entitled(E.p, In.recv, In.bc)
       /\ \A n \in 1..Len(E.rep) : E.rep[n] = <<Len(In.sets[E.p + 1]), IF E.there THEN Len(E.rows) ELSE -1>>
       /\ E.there => /\ MP!Exactly(E.rows, m)
                     /\ ~In.sort => E.rows = SelectSeq(In.sets[E.p + 1], LAMBDA x : x \in m)
                     /\ In.sort => got \in {<<>>, E.rows}
       /\ E.hook # <<>> => E.hook = <<100, TRUE, 0>>    \* told of the progress, up to the end
       /\ got' = IF E.there /\ In.sort THEN E.rows ELSE got
\* somebody has a key twice and has not said that his keys are unique: nothing happens
Refused == Is("Failed") /\ In.twice >= 0 /\ E.st = "err" /\ ~E.out /\ UNCHANGED got
\* ---- Kuscia: every party gets its own task, and all of them the same order of parties ----
Kus == /\ Is("Kus") /\ E.task = "t" \o ToString(E.p - 1) /\ E.self = E.p /\ E.keys = <<"key" \o ToString(E.p - 1)>>
       /\ Len(E.ids) = In.n /\ Range_(E.ids) = 1..In.n
       /\ \A k \in 1..In.n : E.hosts[k] = IF E.ids[k] = E.p THEN "0.0.0.0:" \o ToString(999 + E.p)
                                         ELSE "http://host" \o ToString(E.ids[k] - 1) \o ":80"
       /\ got \in {<<>>, E.ids} /\ got' = E.ids
Place == /\ Is("Place") /\ UNCHANGED got
         /\ \A q \in 1..In.n : got[E.ranks[q] + 1] = q
         /\ E.ranks[In.n + 1] = -2
\* ---- the look-up gets what the configuration says; what is not said is as it is by default ----
Level(w) == IF E.known THEN w.log_level ELSE "all"
Def(f, w) == IF w[f] = 0 THEN In.dflt[f] ELSE w[f]
Want == LET w == [E.want EXCEPT !.log_level = Level(E.want)] IN
        CASE w.call = "receiver" -> [w EXCEPT !.batch = Def("batch", E.want)]
          [] w.call = "sender" -> [w EXCEPT !.nonce = Def("nonce", E.want), !.procs = Def("procs", E.want), !.groups = Def("groups", E.want)]
          [] OTHER -> w
Opt == /\ Is("Opt") /\ UNCHANGED got
       /\ IF E.want.call = "none" THEN E.thrown /\ E.got.call = "none"
          ELSE /\ E.got = Want /\ (E.thrown = (In.rc # 0))
               /\ (~E.thrown /\ E.want.call = "receiver") => E.rep = In.hits
Next == EndRun \/ EndRefused \/ ZipUp \/ Ran \/ Refused \/ Kus \/ Place \/ Opt
Spec == Init /\ [][Next]_<<ci, l, got>>
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
