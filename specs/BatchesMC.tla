------------------------------ MODULE BatchesMC ------------------------------
EXTENDS Batches
CONSTANT MaxLen
VARIABLES n, out
Perms(s) == {f \in [1..Len(s) -> 1..Len(s)] : \A i, j \in 1..Len(s) : i # j => f[i] # f[j]}
Sources == UNION {[1..k -> {1, 2}] : k \in 0..MaxLen}
MInit == /\ \E s \in Sources : Start([i \in 1..Len(s) |-> s[i]]) /\ n \in 1..3 /\ out = <<>>
Rows == 0..MaxLen - 1
MNext == /\ UNCHANGED n
         /\ \/ LET xs == SubSeq(src, cnt + 1, cnt + Size(n)) IN Next_(n, xs) /\ out' = out \o xs
            \/ \E f \in [1..Size(n) -> 0..Len(src) - 1] :
                 LET xs == [i \in 1..Size(n) |-> [x |-> src[f[i] + 1], bi |-> cnt + i - 1, si |-> f[i]]] IN
                 /\ used # {} \/ cnt = 0
                 /\ Shuffled(n, xs) /\ out' = out \o [i \in 1..Len(xs) |-> xs[i].x]
MSpec == MInit /\ [][MNext]_<<btv, n, out>>
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
\* at the end every item was handed out exactly as often as it is in the source
All == cnt = Len(src) /\ (used = {} \/ Cardinality(used) = cnt) => \A x \in {1, 2} : Times(out, x) = Times(src, x)
Ended == cnt <= Len(src) /\ Len(out) = cnt
=============================================================================
