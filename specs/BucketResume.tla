---------------------------- MODULE BucketResume ----------------------------
(* Checkpointed bucketed PSI (KKRT, RR22): the buckets are handled in turn,   *)
(* each party appends the positions it learnt to a file and then advances its *)
(* own checkpoint; a restarted task goes on at the smaller of the two.        *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS NB, Hits, \* Hits[p][b]: positions party p learns from bucket b
          MaxCrash
P == {"a", "b"}
Min(x, y) == IF x < y THEN x ELSE y
VARIABLES run, at, st, ck, file, crashes
vars == <<run, at, st, ck, file, crashes>>
All(x) == [p \in P |-> x]
Init == run = "down" /\ at = 0 /\ st = All("idle") /\ ck = All(0) /\ file = All(<<>>) /\ crashes = 0
Session == /\ run = "down" /\ run' = "up" /\ st' = All("learn")
           /\ at' = Min(ck["a"], ck["b"])
           /\ UNCHANGED <<ck, file, crashes>>
Learn(p) == /\ run = "up" /\ at < NB /\ st[p] = "learn"
            /\ st' = [st EXCEPT ![p] = "mark"]
            /\ file' = [file EXCEPT ![p] = @ \o Hits[p][at + 1]] /\ UNCHANGED <<run, at, ck, crashes>>
\* a checkpoint is written only when the peer has got through the bucket as well
MarkIt(p) == /\ run = "up" /\ st[p] = "mark" /\ \A q \in P : st[q] # "learn"
             /\ ck' = [ck EXCEPT ![p] = at + 1] /\ st' = [st EXCEPT ![p] = "next"] /\ UNCHANGED <<run, at, file, crashes>>
NextB == /\ run = "up" /\ st = All("next") /\ at' = at + 1 /\ st' = All("learn") /\ UNCHANGED <<run, ck, file, crashes>>
Finish == run = "up" /\ at = NB /\ run' = "done" /\ UNCHANGED <<at, st, ck, file, crashes>>
Crash == /\ run = "up" /\ crashes < MaxCrash /\ crashes' = crashes + 1 /\ run' = "down" /\ st' = All("idle")
         /\ UNCHANGED <<at, ck, file>>
Next == Session \/ NextB \/ Finish \/ Crash \/ \E p \in P : Learn(p) \/ MarkIt(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
SetOf(s) == {s[i] : i \in DOMAIN s}
Exact == run = "done" => \A p \in P : SetOf(file[p]) = UNION {SetOf(Hits[p][b]) : b \in 1..NB}
Near == ck["a"] <= ck["b"] + 1 /\ ck["b"] <= ck["a"] + 1
Ends == <>(run = "done")
=============================================================================
