------------------------------- MODULE Piano --------------------------------
(* Private look-up with hints fetched beforehand (Piano).  A database of     *)
(* C chunks of K entries.  The client holds hints: sets with one entry of    *)
(* every chunk and the sum of their contents.  To read x it takes the first  *)
(* hint with x in it, sends that set with x replaced by a drawn entry of the *)
(* same chunk, and afterwards puts a spare set, made to hold x, in the       *)
(* place of the used hint.  Contents are symbolic: a sum of entries is the   *)
(* set of entries that are in it an odd number of times.                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS C, K
ChunkIds == 0..(C - 1)
Offs == 0..(K - 1)
Ids == 0..(C * K - 1)
ChunkOf(x) == x \div K
Off(x) == x % K
Sum2(A, B) == (A \ B) \cup (B \ A)
\* what an honest question looks like: one entry of every chunk
Shape(m) == Len(m) = C /\ \A i \in 1..C : ChunkOf(m[i]) = i - 1
\* --- the client
\* a hint: the drawn offsets, the point put in by hand (-1: none), the sum
None == -1
ElemIn(s, c) == IF s.prog # None /\ ChunkOf(s.prog) = c THEN s.prog ELSE c * K + s.off[c]
Elems(s) == {ElemIn(s, c) : c \in ChunkIds}
Holds(s, x) == ~(s.prog # None /\ ChunkOf(s.prog) = ChunkOf(x)) /\ s.off[ChunkOf(x)] = Off(x)
FreshHint(off) == [off |-> off, prog |-> None, sum |-> {c * K + off[c] : c \in ChunkIds}]
\* tab: offsets of the hints; back[c]: offsets of the spare sets for chunk c; rep[c]: drawn entries of chunk c
Client(tab, back, rep) ==
  [hints |-> [i \in DOMAIN tab |-> FreshHint(tab[i])],
   spare |-> [c \in ChunkIds |-> [i \in DOMAIN back[c] |-> [off |-> back[c][i], sum |-> {d * K + back[c][i][d] : d \in ChunkIds \ {c}}]]],
   rep |-> rep,
   spent |-> [c \in ChunkIds |-> 0], drawn |-> [c \in ChunkIds |-> 0],
   missed |-> {x \in Ids : \A i \in DOMAIN tab : tab[i][ChunkOf(x)] # Off(x)},
   known |-> {}]
First(cl, x) == IF \E i \in DOMAIN cl.hints : Holds(cl.hints[i], x)
                THEN CHOOSE i \in DOMAIN cl.hints : Holds(cl.hints[i], x) /\ \A j \in 1..(i - 1) : ~Holds(cl.hints[j], x)
                ELSE 0
\* the hint that would be used for x, 0 when the question only hides that nothing is asked
Use(cl, x) == IF x \in cl.known \/ cl.drawn[ChunkOf(x)] = Len(cl.rep[ChunkOf(x)]) THEN 0 ELSE First(cl, x)
Question(cl, x, mask) ==
  LET u == Use(cl, x) IN
  IF u = 0 THEN mask
  ELSE [i \in 1..C |-> IF i - 1 = ChunkOf(x) THEN cl.rep[i - 1][cl.drawn[i - 1] + 1] ELSE ElemIn(cl.hints[u], i - 1)]
\* the server: the sum of what was asked for
RECURSIVE SumOf(_)
SumOf(m) == IF m = <<>> THEN {} ELSE Sum2({m[1]}, SumOf(Tail(m)))
\* what the client makes of the reply, and the client afterwards
Read(cl, x, reply) ==
  LET u == Use(cl, x)  c == ChunkOf(x) IN
  IF u = 0
  THEN LET k == cl.known \cup (IF x \in cl.missed /\ First(cl, x) = 0 THEN {x} ELSE {})
       IN [val |-> IF x \in k THEN {x} ELSE {}, cl |-> [cl EXCEPT !.known = k]]
  ELSE LET v == Sum2(Sum2(cl.hints[u].sum, reply), {cl.rep[c][cl.drawn[c] + 1]})
           b == cl.spent[c]
           cl2 == [cl EXCEPT !.drawn[c] = @ + 1, !.known = @ \cup {x}]
       IN [val |-> v,
           cl |-> IF b = Len(cl.spare[c]) THEN cl2
                  ELSE [cl2 EXCEPT !.spent[c] = b + 1,
                          !.hints[u] = [off |-> cl.spare[c][b + 1].off, prog |-> x, sum |-> Sum2(v, cl.spare[c][b + 1].sum)]]]
\* --- what counts: k of n draws at one in K, seven standard deviations about
Near(k, n, K_) == LET d == IF k * K_ > n THEN k * K_ - n ELSE n - k * K_
                  IN n = 0 \/ (d < 46000 /\ (d * d) \div 49 <= n * (K_ - 1) + 1)
=============================================================================
