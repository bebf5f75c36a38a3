------------------------------ MODULE UbPsiMC ------------------------------
EXTENDS UbPsi
VARIABLE res        \* what the last online run joined, and what it should have
Tables == {<<>>} \cup {<<[k |-> a, row |-> a]>> : a \in 1..2} \cup {<<[k |-> a, row |-> 1], [k |-> b, row |-> 2]>> : a \in 1..2, b \in 1..2}
vars == <<ubVars, res>>
Init == inp \in [{"s", "c"} -> Tables] /\ Start /\ res = <<>>
Online == CanRun /\ res' = <<MatchedRows(inp.c, copy.t), MatchedRows(inp.c, cache.t), MatchedRows(copy.t, inp.c), MatchedRows(cache.t, inp.c)>> /\ UNCHANGED ubVars
Quiet == res' = <<>>
Next == \/ ver < 3 /\ Quiet /\ \/ \E p \in {"s", "c"}, t \in Tables : Input(p, t)
                               \/ Gen \/ GenFails \/ Transfer \/ TransferFails \/ Offline \/ OfflineFails
        \/ Online
Spec == Init /\ [][Next]_vars
\* the copy used is the cache, whatever was interrupted before
Exact == CanRun => copy = cache
Result == res # <<>> => res[1] = res[2] /\ res[3] = res[4]
=============================================================================
