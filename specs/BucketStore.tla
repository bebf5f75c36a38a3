---------------------------- MODULE BucketStore ----------------------------
(* Items spread over the buckets of a disk store.  The bucket of an item is a *)
(* function of the item and the number of buckets alone, so that two parties  *)
(* put equal items into buckets of equal number.                              *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES items,   \* [store -> sequence of [d, dup]] in the order written
          flushed, \* [store -> how many of them are surely on disk]
          nb,      \* [store -> number of buckets]
          home     \* {<<number of buckets, item, bucket>>} learnt so far
bsv == <<items, flushed, nb, home>>
Stores == DOMAIN nb
Start == items = <<>> /\ flushed = <<>> /\ nb = <<>> /\ home = {}
New(n) == items' = Append(items, <<>>) /\ flushed' = Append(flushed, 0) /\ nb' = Append(nb, n) /\ UNCHANGED home
Put(st, x) == items' = [items EXCEPT ![st] = Append(@, x)] /\ UNCHANGED <<flushed, nb, home>>
Flush(st) == flushed' = [flushed EXCEPT ![st] = Len(items[st])] /\ UNCHANGED <<items, nb, home>>
\* the process dies and the store is opened again, cut back to the first k items (all of them flushed)
Reopen(st, k) == /\ k <= flushed[st] /\ items' = [items EXCEPT ![st] = SubSeq(@, 1, k)]
                 /\ flushed' = [flushed EXCEPT ![st] = k] /\ UNCHANGED <<nb, home>>
Truncate(st, k) == /\ k <= Len(items[st]) /\ items' = [items EXCEPT ![st] = SubSeq(@, 1, k)]
                   /\ flushed' = [flushed EXCEPT ![st] = k] /\ UNCHANGED <<nb, home>>
\* all buckets are read: lists of [i, d, dup] per bucket
Load(st, bs) ==
  LET here == UNION {{<<nb[st], bs[b][n].d, b>> : n \in 1..Len(bs[b])} : b \in 1..Len(bs)}
      all == UNION {{[i |-> bs[b][n].i, d |-> bs[b][n].d, dup |-> bs[b][n].dup] : n \in 1..Len(bs[b])} : b \in 1..Len(bs)}
  IN /\ flushed[st] = Len(items[st]) /\ Len(bs) = nb[st]
     /\ all = {[i |-> n - 1, d |-> items[st][n].d, dup |-> items[st][n].dup] : n \in 1..Len(items[st])}
     /\ \A b \in 1..Len(bs) : \A n \in 1..Len(bs[b]) - 1 : bs[b][n].i < bs[b][n + 1].i
     /\ home' = home \cup here
     /\ \A x, y \in home' : x[1] = y[1] /\ x[2] = y[2] => x[3] = y[3]
     /\ UNCHANGED <<items, flushed, nb>>
=============================================================================
