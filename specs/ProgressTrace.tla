---------------------------- MODULE ProgressTrace ----------------------------
EXTENDS TraceLib, Progress
VARIABLES ci, l, hist
Ev == Cases[ci].ev
E == Ev[l]
Init == ci \in 1..Len(Cases) /\ l = 1 /\ nodes = <<>> /\ hist = <<>>
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
Obs(o, ns, n) == LET g == GetN(ns, n) IN
  /\ o.total = g.total /\ o.running = g.running /\ o.finished = g.finished
  /\ o.pct = g.percentage /\ o.desc = g.description
Mutate == \/ Is("New") /\ New(E.desc)
          \/ Is("Update") /\ Update(E.n, E.p)
          \/ Is("Done") /\ Done(E.n)
          \/ Is("Weights") /\ SetWeights(E.n, E.w, E.mode)
          \/ Is("SubJobs") /\ SetSubJobs(E.n, E.c, E.mode)
          \/ Is("AddSub") /\ AddSub(E.n, E.desc)
          \/ Is("NextSub") /\ NextSub(E.n, E.desc)
Next == \/ Mutate /\ hist' = Append(hist, nodes')
        \/ Is("Get") /\ Obs(E, nodes, E.n) /\ UNCHANGED <<nodes, hist>>
        \/ Is("IsDone") /\ E.r = nodes[E.n].done /\ UNCHANGED <<nodes, hist>>
        \* a read that ran concurrently with the writer: it must equal the tree at some moment
        \* between its start (lo mutations complete) and its end (hi mutations started)
        \/ Is("Read") /\ (\E k \in E.lo..E.hi : Obs(E, hist[k], E.n)) /\ UNCHANGED <<nodes, hist>>
Spec == Init /\ [][Next]_<<ci, l, nodes, hist>>
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
