---------------------------- MODULE BucketStoreMC ----------------------------
(* Two parties with the same number of buckets: bucket by bucket, their common *)
(* items meet.                                                                 *)
EXTENDS BucketStore
CONSTANTS D, N
VARIABLE hash      \* the function the stores use
Content(st, b) == SelectSeq([n \in 1..Len(items[st]) |-> [i |-> n - 1, d |-> items[st][n].d, dup |-> items[st][n].dup]],
                            LAMBDA x : hash[x.d] = b)
MInit == /\ items = <<<<>>, <<>>>> /\ flushed = <<0, 0>> /\ nb = <<N, N>> /\ home = {} /\ hash \in [D -> 1..N]
MNext == /\ UNCHANGED hash
         /\ \E st \in {1, 2} :
              \/ Len(items[st]) < 2 /\ \E d \in D : Put(st, [d |-> d, dup |-> d]) 
              \/ Flush(st)
              \/ \E k \in 0..2 : Reopen(st, k) \/ Truncate(st, k)
              \/ Load(st, [b \in 1..N |-> Content(st, b)])
MSpec == MInit /\ [][MNext]_<<bsv, hash>>
Got(st) == {items[st][n].d : n \in 1..Len(items[st])}
Meet == UNION {{x.d : x \in {Content(1, b)[n] : n \in 1..Len(Content(1, b))}} \cap {x.d : x \in {Content(2, b)[n] : n \in 1..Len(Content(2, b))}} : b \in 1..N}
        = Got(1) \cap Got(2)
Loadable == \A st \in {1, 2} : flushed[st] = Len(items[st]) => ENABLED Load(st, [b \in 1..N |-> Content(st, b)])
=============================================================================
