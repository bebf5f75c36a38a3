----------------------------- MODULE DkpirTrace -----------------------------
(* Real preparations and sessions of both parties; rows are named by hashes, *)
(* messages by what they look like.                                          *)
EXTENDS TraceLib, Dkpir
VARIABLES ci, l
vars == <<ci, l>>
Ev == Cases[ci].ev
In == Cases[ci].in
E == Ev[l]
Init == ci \in 1..Len(Cases) /\ l = 1
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
EOff == Is("Off") /\ (E.ok <=> E.good) /\ (E.good => E.left = 0)
Ph == Reached(E.skip, "start", E.order)
\* nobody is told anything that has to be paid for
Refused == E.s = "no" /\ E.count = -1 /\ Ph \notin {"wrong", "seed", "done"}
Nothing == ~E.out.there
Told == /\ E.out.there /\ E.out.hdr = In.hdr /\ SameBag(E.out.rows, Asked(In.db, SetOf(E.ask)))
Shuffled == Range_(E.perm) = 1..Len(E.ask) /\ Len(E.perm) = Len(E.ask)
EHonest == /\ Is("On") /\ E.cheat = "none"
           /\ IF E.skip
                THEN E.s = "ok" /\ E.r = "ok" /\ Told /\ E.count = -1 /\ Ph = "data" /\ Shuffled /\ E.left = 0
                ELSE IF AllFound(In.db, E.ask)
                  THEN E.s = "ok" /\ E.r = "ok" /\ Told /\ E.count = Total(In.db, SetOf(E.ask)) /\ Ph = "done" /\ Shuffled /\ E.left = 0
                  ELSE Refused /\ Nothing /\ E.r = "no"
\* a session without counting shows the same whatever is claimed
ECheat == /\ Is("On") /\ ~E.skip
          /\ CASE E.cheat \in {"claim", "short"} -> Refused /\ Nothing /\ E.r = "no" /\ Ph = "claim"
               [] E.cheat \in {"drop", "twice"} -> /\ Refused /\ Nothing
                                                   /\ E.v.seed = FALSE
                                                   /\ E.cheat = "twice" => ~E.v.failed /\ Ph = "claim"
               [] E.cheat = "silent" -> Refused /\ Nothing /\ Ph = "count" /\ ~E.v.failed /\ E.v.data = FALSE
               [] E.cheat = "look" -> /\ E.s = "ok" /\ ~E.v.failed /\ E.v.seed /\ E.v.data /\ Ph = "done"
                                      /\ E.v.found = Len(E.ask) /\ E.v.cts = E.v.found
                                      /\ E.count = Total(In.db, SetOf(E.ask))
               [] E.cheat = "key" -> Refused /\ Nothing /\ E.r = "no" /\ Ph \in {"start", "ask"}
               [] E.cheat = "mixed" -> Refused /\ Nothing /\ E.r = "no"
               [] OTHER -> FALSE
ERepeat == Is("On") /\ E.cheat = "repeat" /\ Nothing /\ E.r = "no" /\ E.s = "no" /\ E.order = <<>> /\ E.count = -1
\* questions are blinded anew, answers shuffled anew and evenly, and the seed told is the one they were shuffled with
EFresh == Is("Fresh") /\ E.points = 3 * E.n /\ E.seeds = E.n /\ E.tied = E.n /\ E.perms >= 4 /\ E.most <= 35 /\ E.sizes = 1
EKeys == /\ Is("Keys") /\ E.sk = E.n /\ E.line = 2 * E.n /\ E.small = 0 /\ E.oprf = E.n /\ E.same = E.n
         /\ E.entries = Cardinality(KeysOf(In.db))
Next == EOff \/ EHonest \/ ECheat \/ ERepeat \/ EFresh \/ EKeys
Spec == Init /\ [][Next]_vars
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
