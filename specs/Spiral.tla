------------------------------- MODULE Spiral -------------------------------
(* Private look-up with an encrypted index (psi/algorithm/spiral).           *)
(* A database of rows is packed into plaintexts, the plaintexts are laid out *)
(* as 2^v1 columns of 2^v2, a question is one polynomial whose coefficients  *)
(* say which column (even places) and, bit by bit, which of its plaintexts   *)
(* (odd places); the server unfolds the coefficients, picks the column,      *)
(* halves it v2 times and returns the plaintext, out of which the client     *)
(* reads its row.  Encryption is ideal here: a cipher text is its content.   *)
EXTENDS Integers, Sequences, FiniteSets
Up(a, b) == (a + b - 1) \div b
Least(a, b) == IF a < b THEN a ELSE b
\* P: n (matrix side), poly (coefficients), logpoly, logp (bits per coefficient)
Coeffs(P) == P.n * P.n * P.poly
Room(P) == (Coeffs(P) * P.logp) \div 8
Piece(P, bytes) == Least(bytes, Room(P))
PerPt(P, bytes) == LET k == Coeffs(P) \div Up(8 * Piece(P, bytes), P.logp) IN IF k = 0 THEN 1 ELSE k
Plaintexts(P, rows, bytes) == Up(rows, PerPt(P, bytes))
Parts(P, bytes) == Up(bytes, Room(P))
\* least g with 2^g >= k
Log(k) == CHOOSE g \in 0..30 : 2^g >= k /\ (g = 0 \/ 2^(g - 1) < k)
Grown(v1, v2, t) == Log(2^v1 + v2 * t)
\* a shape for pts plaintexts: everything fits, columns and bits each into half of the unfolded question
Fits(P, pts, v1, v2, t) ==
  LET g == Grown(v1, v2, t) IN
  /\ v1 \in 1..11 /\ v2 \in 1..11 /\ t >= 1
  /\ 2^(v1 + v2) >= pts
  /\ g <= P.logpoly
  /\ 2 * 2^v1 <= 2^g /\ 2 * v2 * t <= 2^g
HasShape(P, pts, t) == \E v1 \in 1..11, v2 \in 1..11 : Fits(P, pts, v1, v2, t)
-----------------------------------------------------------------------------
\* plaintext i of part k of database D (rows of bytes): the bytes of its rows one after the other, 1 where nothing is
Pack(P, D, bytes, k, i) ==
  LET pc == Piece(P, bytes) per == PerPt(P, bytes) IN
  [b \in 0..(Room(P) - 1) |->
     LET r == i * per + (b \div pc) c == (k - 1) * Room(P) + (b % pc) IN
     IF b < per * pc /\ r < Len(D) THEN (IF c < bytes THEN D[r + 1][c + 1] ELSE 0) ELSE 1]
\* what the client reads back
Unpack(P, bytes, x, pts) ==
  LET pc == Piece(P, bytes) off == x % PerPt(P, bytes) IN
  [c \in 1..bytes |-> pts[1 + ((c - 1) \div Room(P))][off * pc + ((c - 1) % Room(P))]]
-----------------------------------------------------------------------------
\* the question: coefficient -> content, [col |-> j] or [bit |-> l, part |-> k], and the factor it was divided by
Bit(x, l) == (x \div 2^l) % 2
Question(x, per, v1, v2, t) ==
  LET pt == x \div per col == pt \div 2^v2 low == pt % 2^v2
      g == Grown(v1, v2, t) s == Log(v2 * t) IN
  [m \in 0..(2^g - 1) |->
     IF m % 2 = 0 /\ m \div 2 < 2^v1 THEN [val |-> IF m \div 2 = col THEN 1 ELSE 0, div |-> g]
     ELSE IF m % 2 = 1 /\ m \div 2 < v2 * t THEN [val |-> Bit(low, (m \div 2) \div t) * 2^(((m \div 2) % t)), div |-> s + 1]
     ELSE [val |-> 0, div |-> 0]]
\* one round: entry j keeps the coefficients with bit i clear, entry j + 2^i takes the others, both doubled;
\* odd entries are left as they are (entries beyond what is used in round stop, all of them in later rounds)
Skip(i, j, stop, used) == j % 2 = 1 /\ (i > stop \/ (i = stop /\ j \div 2 >= used))
Unfold(v, i, stop, used) ==
  [j \in 0..(2^(i + 1) - 1) |->
     LET k == j % 2^i IN
     IF Skip(i, j, stop, used)
       THEN v[k]
       ELSE [has |-> {m \in v[k].has : Bit(m, i) = j \div 2^i}, two |-> v[k].two + 1]]
\* content of an unfolded entry: sum over the coefficients it still holds; -1 if the factor is not undone
Content(q, e) == LET nz == {m \in e.has : q[m].val # 0} IN
  IF nz = {} THEN 0 ELSE IF Cardinality(nz) = 1 /\ \A m \in nz : q[m].div = e.two THEN q[CHOOSE m \in nz : TRUE].val ELSE -1
Half(v, b) == [i \in 0..(Cardinality(DOMAIN v) \div 2 - 1) |-> IF b = 1 THEN v[i + Cardinality(DOMAIN v) \div 2] ELSE v[i]]
=============================================================================
