------------------------------ MODULE Channels ------------------------------
(* Named links between pairs of parties: what one end puts in comes out at the *)
(* other end, once, in order, whatever the other links carry.                  *)
EXTENDS Naturals, Sequences
VARIABLE q             \* [<<from, to, name>> -> messages under way]
CStart == q = <<>>
At(c) == IF c \in DOMAIN q THEN q[c] ELSE <<>>
Put(c, s) == q' = [x \in DOMAIN q \cup {c} |-> IF x = c THEN s ELSE q[x]]
Send(c, v) == Put(c, Append(At(c), v))
Recv(c, v) == At(c) # <<>> /\ Head(At(c)) = v /\ Put(c, Tail(At(c)))
Idle == \A c \in DOMAIN q : q[c] = <<>>
=============================================================================
