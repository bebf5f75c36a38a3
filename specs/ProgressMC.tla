----------------------------- MODULE ProgressMC -----------------------------
(* Bounded model: one reporting tree whose leaves only move forward.         *)
EXTENDS Progress
CONSTANTS MaxNodes, Pcts
Init == nodes = <<Node("task")>>
Leaf(n) == nodes[n].mode = "single"
Room(n) == ~Leaf(n) /\ Len(nodes[n].subs) < Len(nodes[n].w) /\ ~nodes[n].done /\ Len(nodes) < MaxNodes
Next == \E n \in 1..Len(nodes) :
          \/ Leaf(n) /\ ~nodes[n].done /\ \E p \in Pcts : p >= nodes[n].pct /\ Update(n, p)
          \/ ~nodes[n].done /\ Done(n)
          \/ Leaf(n) /\ ~nodes[n].done /\ nodes[n].pct = 0 /\ \E m \in {"serial", "parallel"} :
                SetWeights(n, <<1, 3>>, m)
          \/ Leaf(n) /\ ~nodes[n].done /\ nodes[n].pct = 0 /\ SetSubJobs(n, 2, "parallel")
          \/ Room(n) /\ AddSub(n, "s")
          \/ Room(n) /\ NextSub(n, "")
Spec == Init /\ [][Next]_nodes
\* what an observer sees never goes back
Monotone == [][\A n \in 1..Len(nodes) : GetN(nodes', n).percentage >= GetN(nodes, n).percentage]_nodes
=============================================================================
