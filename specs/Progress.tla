------------------------------ MODULE Progress ------------------------------
(* The progress tree that a long-running task reports to its observers.      *)
(* A node is a leaf (mode "single") or the sum of weighted phases, run one   *)
(* after the other ("serial") or together ("parallel").                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
VARIABLE nodes       \* Seq([desc, mode, w, subs, pct, done])

Node(d) == [desc |-> d, mode |-> "single", w |-> <<>>, subs |-> <<>>, pct |-> 0, done |-> FALSE]
Min2(a, b) == IF a < b THEN a ELSE b
SumS(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

RECURSIVE GetN(_, _)
GetN(ns, n) ==
  LET nd == ns[n] IN
  IF nd.mode = "single"
  THEN [total |-> 1,
        running |-> IF nd.pct > 0 /\ nd.pct < 100 THEN 1 ELSE 0,
        finished |-> IF nd.pct >= 100 THEN 1 ELSE 0,
        percentage |-> nd.pct,
        description |-> IF nd.desc = "" THEN ToString(nd.pct) \o "%"
                        ELSE nd.desc \o ", " \o ToString(nd.pct) \o "%"]
  ELSE
  LET k   == Len(nd.subs)
      sub == [j \in 1..k |-> GetN(ns, nd.subs[j])]
      tw  == SumS(nd.w)
      tp  == SumS([j \in 1..k |-> nd.w[j] * sub[j].percentage])
      tot == SumS([j \in 1..k |-> sub[j].total]) + (Len(nd.w) - k)
      fin == SumS([j \in 1..k |-> sub[j].finished])
      run == SumS([j \in 1..k |-> sub[j].running])
      \* the phase an observer should be told about: the first one not done, else the last one
      cand == {j \in 1..k : (~ns[nd.subs[j]].done \/ j = k) /\ sub[j].description # ""}
      sd  == IF nd.mode = "parallel"
             THEN ToString(run) \o " jobs running (" \o ToString(fin) \o " / " \o ToString(tot) \o ")"
             ELSE IF cand = {} THEN ""
             ELSE sub[CHOOSE j \in cand : \A i \in cand : j <= i].description
  IN [total |-> tot, running |-> run, finished |-> fin,
      percentage |-> tp \div (IF tw = 0 THEN 1 ELSE tw),
      description |-> IF nd.desc = "" THEN sd
                      ELSE IF sd = "" THEN nd.desc ELSE nd.desc \o ", " \o sd]

RECURSIVE DoneN(_, _)
\* marking a node done marks everything below it done; a done node is not touched again
DoneN(ns, n) ==
  IF ns[n].done THEN ns
  ELSE LET ns1 == IF ns[n].mode = "single" THEN ns
                  ELSE FoldLeft(LAMBDA a, c : DoneN(a, c), ns, ns[n].subs)
       IN [ns1 EXCEPT ![n].pct = 100, ![n].done = TRUE]

New(d)               == nodes' = Append(nodes, Node(d))
Update(n, p)         == nodes' = [nodes EXCEPT ![n].pct = Min2(p, 100)]
Done(n)              == nodes' = DoneN(nodes, n)
SetWeights(n, w, m)  == nodes' = [nodes EXCEPT ![n].mode = m, ![n].w = w]
Resize(w, c)         == [j \in 1..c |-> IF j <= Len(w) THEN w[j] ELSE 1]
SetSubJobs(n, c, m)  == nodes' = [nodes EXCEPT ![n].mode = m, ![n].w = Resize(@, c)]
AddSub(n, d)         == nodes' = [Append(nodes, Node(d)) EXCEPT ![n].subs = Append(@, Len(nodes) + 1)]
NextSub(n, d)        == LET ns == IF nodes[n].subs = <<>> THEN nodes
                                  ELSE DoneN(nodes, nodes[n].subs[Len(nodes[n].subs)])
                        IN nodes' = [Append(ns, Node(d)) EXCEPT ![n].subs = Append(@, Len(ns) + 1)]

Complete(ns, n) == Len(ns[n].subs) = Len(ns[n].w)    \* every planned phase was started
RECURSIVE AllComplete(_, _)
AllComplete(ns, n) == \/ ns[n].mode = "single"
                      \/ Complete(ns, n) /\ \A j \in 1..Len(ns[n].subs) : AllComplete(ns, ns[n].subs[j])

(* ------------------------------- properties ------------------------------ *)
Bounded == \A n \in 1..Len(nodes) :
             LET g == GetN(nodes, n) IN
             /\ g.percentage \in 0..100
             /\ g.finished + g.running <= g.total
DoneMeans100 == \A n \in 1..Len(nodes) :
                  (nodes[n].done /\ AllComplete(nodes, n)) => GetN(nodes, n).percentage = 100
=============================================================================
