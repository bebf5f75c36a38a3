------------------------------ MODULE SpiralMC ------------------------------
(* Every database size and shape up to the bounds, every question; a server  *)
(* that regenerates, stores and reloads its database between questions.      *)
EXTENDS Spiral, TLC
CONSTANTS MaxRows, MaxBytes, Polys, Ts, MaxOps
VARIABLES P, dim, t, db, sv, file, ops, ask
vars == <<P, dim, t, db, sv, file, ops, ask>>
Rows == dim.rows
Bytes == dim.bytes
Row(d, r) == [c \in 1..Bytes |-> <<d, r, c>>]
Data(d) == [r \in 1..Rows |-> Row(d, r)]
Pts == Plaintexts(P, Rows, Bytes)
Shapes == {s \in (1..3) \X (1..3) : Fits(P, Pts, s[1], s[2], t)}
None == [st |-> "none"]
Idle == [ph |-> "idle"]
Init == /\ \E k \in Polys, lp \in {4, 8, 9} : P = [n |-> 1, poly |-> 2^k, logpoly |-> k, logp |-> lp]
        /\ \E r \in 1..MaxRows, b \in 1..MaxBytes : dim = [rows |-> r, bytes |-> b, v1 |-> 0, v2 |-> 0]
        /\ t \in Ts /\ db = 0 /\ sv = None /\ file = 0 /\ ops = 0 /\ ask = Idle
\* fix the shape first
Shape == /\ dim.v1 = 0 /\ \E s \in Shapes : dim' = [dim EXCEPT !.v1 = s[1], !.v2 = s[2]]
         /\ UNCHANGED <<P, t, db, sv, file, ops, ask>>
Calm == dim.v1 > 0 /\ ask = Idle
Op == Calm /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED <<P, dim, t, ask>>
Look == Op /\ db' = db + 1 /\ sv' = [st |-> "look", d |-> db + 1] /\ UNCHANGED file
Plain == Op /\ db' = db + 1 /\ sv' = [st |-> "plain", d |-> db + 1] /\ UNCHANGED file
Dump == Op /\ sv.st = "plain" /\ file' = sv.d /\ UNCHANGED <<db, sv>>
Load == Op /\ file > 0 /\ sv' = [st |-> "look", d |-> file] /\ UNCHANGED <<db, file>>
\* a question, round by round
Ask == /\ Calm /\ sv.st = "look" /\ UNCHANGED <<P, dim, t, db, sv, file>>
       /\ ops < MaxOps /\ ops' = ops + 1
       /\ \E x \in 0..(Rows - 1) :
            ask' = [ph |-> "unfold", x |-> x, i |-> 0, q |-> Question(x, PerPt(P, Bytes), dim.v1, dim.v2, t),
                    v |-> [j \in {0} |-> [has |-> 0..(2^Grown(dim.v1, dim.v2, t) - 1), two |-> 0]]]
Round == /\ ask.ph = "unfold" /\ ask.i < Grown(dim.v1, dim.v2, t)
         /\ ask' = [ask EXCEPT !.i = @ + 1, !.v = Unfold(ask.v, ask.i, Log(dim.v2 * t), dim.v2 * t)]
         /\ UNCHANGED <<P, dim, t, db, sv, file, ops>>
Hot(j) == Content(ask.q, ask.v[2 * j])
Key(l) == {Content(ask.q, ask.v[2 * (l * t + k) + 1]) : k \in 0..(t - 1)}
Column == /\ ask.ph = "unfold" /\ ask.i = Grown(dim.v1, dim.v2, t)
          /\ LET items == [k \in 1..Parts(P, Bytes) |-> [i \in 0..(2^(dim.v1 + dim.v2) - 1) |-> <<k, i>>]]
                 hot == {j \in 0..(2^dim.v1 - 1) : Hot(j) # 0} IN
             /\ Assert(Cardinality(hot) = 1 /\ \A j \in hot : Hot(j) = 1, <<"column", ask>>)
             /\ ask' = [ph |-> "fold", x |-> ask.x, i |-> 0,
                        bits |-> [l \in 0..(dim.v2 - 1) |->
                                    LET c == [k \in 0..(t - 1) |-> Content(ask.q, ask.v[2 * (l * t + k) + 1])] IN
                                    IF \A k \in 0..(t - 1) : c[k] = 2^k THEN 1 ELSE IF \A k \in 0..(t - 1) : c[k] = 0 THEN 0 ELSE 2],
                        v |-> [k \in DOMAIN items |-> [i \in 0..(2^dim.v2 - 1) |-> items[k][(CHOOSE j \in hot : TRUE) * 2^dim.v2 + i]]]]
          /\ UNCHANGED <<P, dim, t, db, sv, file, ops>>
Fold == /\ ask.ph = "fold" /\ ask.i < dim.v2
        /\ Assert(ask.bits[dim.v2 - 1 - ask.i] \in {0, 1}, <<"bit", ask>>)
        /\ ask' = [ask EXCEPT !.i = @ + 1, !.v = [k \in DOMAIN @ |-> Half(ask.v[k], ask.bits[dim.v2 - 1 - ask.i])]]
        /\ UNCHANGED <<P, dim, t, db, sv, file, ops>>
Read == /\ ask.ph = "fold" /\ ask.i = dim.v2
        /\ ask' = [ph |-> "done", x |-> ask.x,
                   got |-> Unpack(P, Bytes, ask.x, [k \in DOMAIN ask.v |-> Pack(P, Data(sv.d), Bytes, ask.v[k][0][1], ask.v[k][0][2])])]
        /\ UNCHANGED <<P, dim, t, db, sv, file, ops>>
Done == ask.ph = "done" /\ ask' = Idle /\ UNCHANGED <<P, dim, t, db, sv, file, ops>>
Next == Shape \/ Look \/ Plain \/ Dump \/ Load \/ Ask \/ Round \/ Column \/ Fold \/ Read \/ Done
Spec == Init /\ [][Next]_vars
\* the look-up returns the row asked for, of the database served
Right == ask.ph = "done" => ask.got = Row(sv.d, ask.x + 1)
\* the database served is the last one generated or loaded
Served == sv.st # "none" => sv.d \in 1..db
\* rows have places of their own
Apart == dim.v1 = 0 =>
  LET pc == Piece(P, Bytes) per == PerPt(P, Bytes) IN
  /\ per * pc <= Room(P) /\ Pts * per >= Rows
  /\ (Pts - 1) * per < Rows
  /\ Parts(P, Bytes) * Room(P) >= Bytes
\* the real parameters have a shape for every number of plaintexts from 1 to 1024
Shaped == (P.logp = 8 /\ dim = [rows |-> 1, bytes |-> 1, v1 |-> 0, v2 |-> 0]) =>
  \A k \in 9..11 : \A pts \in {1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 64, 65, 128, 129, 256, 257, 512, 513, 1024}, tt \in 4..8 :
    HasShape([n |-> 2, poly |-> 2^k, logpoly |-> k, logp |-> 8], pts, tt)
=============================================================================
