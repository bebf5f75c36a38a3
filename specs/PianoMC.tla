------------------------------ MODULE PianoMC -------------------------------
EXTENDS Piano, TLC, FiniteSetsExt
CONSTANTS M, Reps, Spares, Asks, Counting
VARIABLES plan, cl, view, ok, coins
vars == <<plan, cl, view, ok, coins>>
Offsets == [ChunkIds -> Offs]
Tabs == [1..M -> Offsets]
\* the chunk's own offset of a spare set is never looked at
Backs == {f \in [ChunkIds -> [1..Spares -> Offsets]] : \A c \in ChunkIds, i \in 1..Spares : f[c][i][c] = 0}
RepsOf == {f \in [ChunkIds -> [1..Reps -> Ids]] : \A c \in ChunkIds, i \in 1..Reps : ChunkOf(f[c][i]) = c}
Msgs == {m \in [1..C -> Ids] : Shape(m)}
Coins == [tab : Tabs, back : Backs, rep : RepsOf, mask : [1..Asks -> Msgs]]
Plans == [1..Asks -> Ids]
\* the questions the server sees for a plan
RECURSIVE Views(_, _, _, _)
Views(c, p, k, mask) == IF k > Len(p) THEN <<>>
                        ELSE LET q == Question(c, p[k], mask[k]) IN <<q>> \o Views(Read(c, p[k], SumOf(q)).cl, p, k + 1, mask)
ViewOf(w, p) == Views(Client(w.tab, w.back, w.rep), p, 1, w.mask)
\* --- step by step
Init == /\ plan \in Plans
        /\ view = <<>> /\ ok = TRUE
        /\ IF Counting THEN coins = <<>> /\ cl = <<>>
           ELSE /\ coins \in [tab : Tabs, back : Backs, rep : RepsOf, mask : {[k \in 1..Asks |-> [i \in 1..C |-> (i - 1) * K]]}]
                /\ cl = Client(coins.tab, coins.back, coins.rep)
Next == /\ ~Counting /\ Len(view) < Asks
        /\ LET x == plan[Len(view) + 1]
               q == Question(cl, x, coins.mask[1])
               r == Read(cl, x, SumOf(q))
           IN /\ view' = Append(view, q) /\ cl' = r.cl
              \* the entry, or, when neither a hint nor a kept miss has it, nothing at all
              /\ ok' = (Shape(q) /\ (r.val = {x} \/ (r.val = {} /\ x \notin cl.known /\ Use(cl, x) = 0 /\ ~(x \in cl.missed /\ First(cl, x) = 0))))
        /\ UNCHANGED <<plan, coins>>
Spec == Init /\ [][Next]_vars
Right == ok
\* every hint knows the sum of its entries, every spare set the sum of all but one
Sums == Counting \/ \A i \in DOMAIN cl.hints : cl.hints[i].sum = Elems(cl.hints[i])
\* whatever is asked, all sequences of questions are alike likely: nothing about the plan is in them
Tally == FoldSet(LAMBDA w, t : LET v == ViewOf(w, plan) IN [t EXCEPT ![v] = @ + 1], [m \in [1..Asks -> Msgs] |-> 0], Coins)
NothingSeen == Counting => LET T == Tally IN \A m, o \in DOMAIN T : T[m] = T[o]
=============================================================================
