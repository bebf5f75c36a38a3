------------------------------- MODULE UbPsi -------------------------------
(* Unbalanced PSI: the server (s) turns its table into a cache, the client    *)
(* (c) gets a copy of it, and online runs join the client's present table     *)
(* with the table the cache was made from.                                    *)
EXTENDS PsiJoin
CONSTANT PartialCopy   \* TRUE: what an interrupted transfer leaves is taken for a copy (to see the model notice)
VARIABLES inp,     \* [party -> table]
          cache,   \* the server's cache: [v |-> version, t |-> table]; v = 0: none that can be used
          copy,    \* the client's copy
          ver      \* versions given out so far
ubVars == <<inp, cache, copy, ver>>
None == [v |-> 0, t |-> <<>>]
Start == cache = None /\ copy = None /\ ver = 0
Input(p, t) == inp' = [inp EXCEPT ![p] = t] /\ UNCHANGED <<cache, copy, ver>>
Fresh == [v |-> ver + 1, t |-> inp.s]
Gen == cache' = Fresh /\ ver' = ver + 1 /\ UNCHANGED <<inp, copy>>
\* stopped on the way: the old cache is gone or not, the new one is there in whole or not
GenFails == cache' \in {None, cache, Fresh} /\ ver' = ver + 1 /\ UNCHANGED <<inp, copy>>
Transfer == cache.v # 0 /\ copy' = cache /\ UNCHANGED <<inp, cache, ver>>
TransferFails == /\ \/ copy' \in {None, copy, cache}
                    \/ PartialCopy /\ cache.v # 0 /\ \E n \in 0..Len(cache.t) : copy' = [v |-> cache.v, t |-> SubSeq(cache.t, 1, n)]
                 /\ UNCHANGED <<inp, cache, ver>>
Offline == cache' = Fresh /\ copy' = Fresh /\ ver' = ver + 1 /\ UNCHANGED inp
OfflineFails == /\ cache' \in {None, cache, Fresh}
                /\ copy' \in {None, copy} \cup {cache'}
                /\ ver' = ver + 1 /\ UNCHANGED inp
\* an online run may give a result only from a copy of the cache
CanRun == cache.v # 0 /\ copy.v = cache.v
\* a copy of an earlier cache: transferring again was left out, nothing is promised
Stale == cache.v # 0 /\ copy.v \notin {0, cache.v}
Joined(cc, cp) == <<cc.t, inp.c>>
=============================================================================
