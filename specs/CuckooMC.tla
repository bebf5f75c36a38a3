------------------------------ MODULE CuckooMC ------------------------------
(* The insertion itself, for every assignment of candidate bins.              *)
EXTENDS Cuckoo, TLC
CONSTANTS NIn, NBin, NHash, NStash, MaxTry
VARIABLES h, bins, cand, todo, try, stash, st
v == <<h, bins, cand, todo, try, stash, st>>
MInit == /\ h \in [1..NIn -> [1..NHash -> 1..NBin]] /\ bins = [b \in 1..NBin |-> <<>>] /\ stash = <<>> /\ try = 0 /\ st = "run"
         /\ cand = [i \in 1..NIn |-> <<i, 1>>] /\ todo = <<>>
\* one round: the candidates are placed one after the other, those they push out are the next round's
Step == /\ st = "run" /\ cand # <<>>
        /\ LET c == Head(cand)
               b == h[c[1]][c[2]]
               out == bins[b] IN
           /\ bins' = [bins EXCEPT ![b] = c]
           /\ todo' = IF out = <<>> THEN todo ELSE Append(todo, <<out[1], (out[2] % NHash) + 1>>)
           /\ cand' = Tail(cand) /\ UNCHANGED <<h, try, stash, st>>
Round == /\ st = "run" /\ cand = <<>>
         /\ IF todo = <<>> THEN st' = "done" /\ UNCHANGED <<cand, todo, try, stash>>
            ELSE IF try + 1 < MaxTry THEN cand' = todo /\ todo' = <<>> /\ try' = try + 1 /\ UNCHANGED <<stash, st>>
            ELSE IF Len(todo) <= NStash THEN stash' = [k \in 1..Len(todo) |-> todo[k][1]] /\ todo' = <<>> /\ st' = "done" /\ UNCHANGED <<cand, try>>
            ELSE st' = "full" /\ UNCHANGED <<cand, todo, try, stash>>
         /\ UNCHANGED <<h, bins>>
MNext == Step \/ Round
MSpec == MInit /\ [][MNext]_v
\* while running, too, no input is lost or doubled
Once == \A i \in 1..NIn : Cardinality({b \in 1..NBin : bins[b] # <<>> /\ bins[b][1] = i})
          + Cardinality({k \in 1..Len(cand) : cand[k][1] = i}) + Cardinality({k \in 1..Len(todo) : todo[k][1] = i})
          + Cardinality({k \in 1..Len(stash) : stash[k] = i}) = 1
Result == st = "done" => Placed(bins, stash, h)
=============================================================================
