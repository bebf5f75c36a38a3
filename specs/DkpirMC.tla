------------------------------- MODULE DkpirMC -------------------------------
EXTENDS Dkpir, TLC, SequencesExt, FiniteSetsExt, Functions
CONSTANTS Keys, MaxRows, MaxWeight, Q
VARIABLES cnt, ask, perm, ph, w, extra, claim, saved, seed, got
vars == <<cnt, ask, perm, ph, w, extra, claim, saved, seed, got>>
N == Len(ask)
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Table == LET rows(k) == [i \in 1..cnt[k] |-> <<k, i>>] IN FlattenSeq([k \in 1..Cardinality(Keys) |-> rows(k)])
Init == /\ cnt \in [Keys -> 0..MaxRows]
        /\ ask \in {s \in UNION {[1..n -> Keys] : n \in 1..Cardinality(Keys)} : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
        /\ perm = <<>> /\ ph = "query" /\ w = <<>> /\ extra = 0 /\ claim = -1 /\ saved = -1 /\ seed = <<>> /\ got = <<>>
\* the answers come back in another order: the one to question i at place perm[i]
Answer == /\ ph = "query" /\ perm = <<>> /\ perm' \in Perms(N)
          /\ ph' = "count" /\ UNCHANGED <<cnt, ask, w, extra, claim, saved, seed, got>>
KeyAt(j) == ask[CHOOSE i \in 1..N : perm[i] = j]
Found(j) == cnt[KeyAt(j)] > 0
\* what the client holds before it has the seed: the rows found at each place, without names
View == [j \in 1..N |-> cnt[KeyAt(j)]]
\* it adds up the cipher texts it was sent with any weights, and anything known to the sum
Sum == /\ ph = "count"
       /\ w' \in {f \in [1..N -> 0..MaxWeight] : \A j \in 1..N : ~Found(j) => f[j] = 0}
       /\ \E j \in 1..N : w'[j] > 0
       /\ extra' \in 0..1 /\ ph' = "sum" /\ UNCHANGED <<cnt, ask, perm, claim, saved, seed, got>>
Data == ph = "sum" /\ ph' = "data" /\ UNCHANGED <<cnt, ask, perm, w, extra, claim, saved, seed, got>>
Claim == /\ ph = "data" /\ claim' \in 0..(MaxRows * Cardinality(Keys) + 1)
         /\ ph' = "claim" /\ UNCHANGED <<cnt, ask, perm, w, extra, saved, seed, got>>
Weight == MapThenSumSet(LAMBDA j : w[j], 1..N)
Rows == MapThenSumSet(LAMBDA j : w[j] * View[j], 1..N)
Check == /\ ph = "claim"
         /\ IF Passes(Weight, Rows, extra, claim, N)
              THEN saved' = claim /\ seed' = perm /\ ph' = "seed"
              ELSE ph' = "refused" /\ UNCHANGED <<saved, seed>>
         /\ UNCHANGED <<cnt, ask, perm, w, extra, claim, got>>
Restore == /\ ph = "seed" /\ got' = [i \in 1..N |-> <<ask[i], View[seed[i]]>>] /\ ph' = "done"
           /\ UNCHANGED <<cnt, ask, perm, w, extra, claim, saved, seed>>
Next == Answer \/ Sum \/ Data \/ Claim \/ Check \/ Restore
Spec == Init /\ [][Next]_vars
Honest == w # <<>> /\ (\A j \in 1..N : w[j] = IF Found(j) THEN 1 ELSE 0) /\ extra = 0
\* every key asked comes back with its own rows
Right == ph = "done" => \A i \in 1..N : got[i] = <<ask[i], cnt[ask[i]]>>
\* who adds up what it was sent gets the seed for the true number alone, and only if every key was found
Billed == (ph \in {"seed", "done", "refused"} /\ Honest) =>
            /\ (ph = "refused") <=> ~(AllFound(Table, ask) /\ claim = Total(Table, SetOf(ask)))
            /\ saved # -1 => saved = Total(Table, SetOf(ask))
\* nobody names more or fewer rows than the cipher texts added up stand for, nor adds up fewer cipher texts than keys asked
Bound == saved # -1 => saved = Rows /\ Weight = N /\ extra = 0
\* the symbolic check is the one over lines
Lines == (ph = "claim" /\ claim <= Q - 1 /\ Rows <= Q - 1 /\ Weight <= Q - 1) => (Passes(Weight, Rows, extra, claim, N) <=> PassesAll(Weight, Rows, extra, claim, N, Q))
\* the seed is never out before the number was accepted
Late == seed # <<>> => saved # -1
\* until then any order of the keys asked could have led to what the client holds
Hidden == (ph = "data") => \A q \in Perms(N) : \E p \in Perms(N) : \A i \in 1..N : View[perm[i]] = View[p[q[i]]]
Bounded == MaxWeight >= 1 /\ \A k \in Keys : cnt[k] <= MaxRows
=============================================================================
