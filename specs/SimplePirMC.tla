----------------------------- MODULE SimplePirMC ----------------------------
EXTENDS SimplePir, TLC
CONSTANTS Qs, Ps, Cols, R, As, Ss
VARIABLES q, p, a, row, s, e, col, st
vars == <<q, p, a, row, s, e, col, st>>
Init == /\ q \in Qs /\ p \in Ps /\ a \in [1..Cols -> {x \in As : x < q}] /\ s \in {x \in Ss : x < q}
        /\ row = <<>> /\ e = <<>> /\ col = 0 /\ st = "new"
Ask == /\ st = "new" /\ row' \in [1..Cols -> 0..(p - 1)] /\ e' \in [1..Cols -> (0 - R)..R] /\ col' \in 1..Cols
       /\ st' = "asked" /\ UNCHANGED <<q, p, a, s>>
Spec == Init /\ [][Ask]_vars
Right == (st = "asked" /\ Fits(row, e, q, p)) => Read(Reply(row, Question(a, s, e, col, q, p), q), Hint(row, a, q), s, q, p) = row[col]
=============================================================================
