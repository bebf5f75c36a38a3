------------------------------- MODULE ApsiMC -------------------------------
(* Preparing with a process per group, any of which may fail, all of which   *)
(* may be stopped at any moment, any number of times (liveness: Stops often),*)
(* and be started again on what is there.                                    *)
EXTENDS Apsi
CONSTANTS Rows, Groups, Stops
VARIABLES twice, of, disk, pc, todo, work, stops, told
vars == <<twice, of, disk, pc, todo, work, stops, told>>
Init == /\ twice \in SUBSET Rows /\ Cardinality(twice) <= 1 /\ of \in [Rows -> Groups]
        /\ disk = Fresh(Groups, Rows) /\ pc = "off" /\ todo = {} /\ work = [g \in Groups |-> "idle"] /\ stops = 0 /\ told = "nothing"
\* what is still to be written when dividing starts: a row in the table twice is written twice
Lines == Rows \X {1} \cup twice \X {2}
Start == /\ pc = "off" /\ disk.st # "generated" /\ told = "nothing"
         /\ work' = [g \in Groups |-> "idle"]
         /\ IF Divided(disk) THEN pc' = "work" /\ todo' = {} /\ UNCHANGED disk
                             ELSE pc' = "divide" /\ todo' = Lines /\ disk' = Clean(disk)
         /\ UNCHANGED <<twice, of, stops, told>>
Line == \E t \in todo : /\ pc = "divide" /\ disk' = DivideRow(disk, t[1]) /\ todo' = todo \ {t}
                        /\ UNCHANGED <<twice, of, pc, work, stops, told>>
AllLines == /\ pc = "divide" /\ todo = {} /\ disk' = [disk EXCEPT !.st = "divided"] /\ pc' = "work"
            /\ UNCHANGED <<twice, of, todo, work, stops, told>>
\* a process takes up a group: one that says it is complete is left alone
Take(g) == /\ pc \in {"work", "check"} /\ work[g] = "idle"
           /\ IF Complete(disk, of, g) THEN work' = [work EXCEPT ![g] = "done"] /\ UNCHANGED disk
              ELSE IF Bad(disk, of, g) THEN work' = [work EXCEPT ![g] = "failed"] /\ UNCHANGED disk
              ELSE work' = [work EXCEPT ![g] = "busy"] /\ disk' = [disk EXCEPT !.db[g] = {}]
           /\ UNCHANGED <<twice, of, pc, todo, stops, told>>
Store(g) == \E r \in RowsOf(disk, of, g) \ disk.db[g] :
              /\ pc \in {"work", "check"} /\ work[g] = "busy" /\ disk' = [disk EXCEPT !.db[g] = @ \cup {r}]
              /\ UNCHANGED <<twice, of, pc, todo, work, stops, told>>
End(g) == /\ pc \in {"work", "check"} /\ work[g] = "busy" /\ disk.db[g] = RowsOf(disk, of, g)
          /\ disk' = [disk EXCEPT !.meta = @ \cup {g}] /\ work' = [work EXCEPT ![g] = "done"]
          /\ UNCHANGED <<twice, of, pc, todo, stops, told>>
Fail(g) == /\ pc = "work" /\ work[g] = "busy" /\ work' = [work EXCEPT ![g] = "failed"]
           /\ UNCHANGED <<twice, of, disk, pc, todo, stops, told>>
\* the parent goes over every group again before it says that the folder is whole
Check == /\ pc = "work" /\ \A g \in Groups : work[g] \in {"done", "failed"}
         /\ pc' = "check" /\ work' = [g \in Groups |-> "idle"] /\ UNCHANGED <<twice, of, disk, todo, stops, told>>
Mark == /\ pc = "check" /\ \A g \in Groups : work[g] = "done"
        /\ disk' = [disk EXCEPT !.st = "generated"] /\ pc' = "off" /\ told' = "ok" /\ UNCHANGED <<twice, of, todo, work, stops>>
Refuse == /\ pc = "check" /\ \E g \in Groups : work[g] = "failed"
          /\ pc' = "off" /\ told' = "no" /\ UNCHANGED <<twice, of, disk, todo, work, stops>>
Stop == /\ pc # "off" /\ stops < Stops /\ stops' = stops + 1 /\ pc' = "off" /\ UNCHANGED <<twice, of, disk, todo, work, told>>
Work == Start \/ Line \/ AllLines \/ Check \/ Mark \/ Refuse \/ \E g \in Groups : Take(g) \/ Store(g) \/ End(g)
Next == Work \/ Stop \/ \E g \in Groups : Fail(g)
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)
WholeWhenSaid == disk.st = "generated" => /\ twice = {} /\ \A g \in Groups : disk.db[g] = {r \in Rows : of[r] = g}
MetaWhole == \A g \in disk.meta : disk.db[g] = {r \in Rows : of[r] = g} /\ \A r \in twice : of[r] # g
Answers == disk.st = "generated" => \A ask \in SUBSET Rows : Served(disk, of, ask) = ask
Said == (told = "ok" => disk.st = "generated") /\ (told = "no" => twice # {})
Ends == <>(told = IF twice = {} THEN "ok" ELSE "no")
=============================================================================
