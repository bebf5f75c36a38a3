----------------------------- MODULE EcdhResume -----------------------------
(* Checkpointed ECDH PSI.  Two parties mask their keys in batches; the peer   *)
(* masks them again, keeps them (if it gets the result) and returns them; the *)
(* owner keeps those (if it gets the result).  Both stores are files that may *)
(* hold more than the checkpoint says; either party may stop at any step, the *)
(* other one then fails too, and the task is started again.                   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Keys,        \* [party -> sequence of keys]
          Gets,        \* parties entitled to the result
          Batch,       \* items per message
          MaxCrash,
          KeepTail     \* TRUE: a resumed task forgets to cut its stores back (to see the model notice)
P == {"a", "b"}
Peer(p) == IF p = "a" THEN "b" ELSE "a"
Min(x, y) == IF x < y THEN x ELSE y
VARIABLES run,         \* "down", "up", "done"
          priv,        \* persisted private key (0: none yet)
          fresh,       \* source of new private keys
          ckS, ckP,    \* checkpointed numbers of own dual-masked and of peer items
          sto, sti,    \* files: own dual-masked values, peer's dual-masked values
          start, sent, \* stream position of this session
          chan, back,  \* messages: masked batches p -> peer, dual-masked batches peer -> p
          held,        \* batch of the peer's items being worked on ("none" outside)
          got,         \* batch of own dual-masked items being stored
          doneP, doneS,\* streams ended in this session
          crashes, result
vars == <<run, priv, fresh, ckS, ckP, sto, sti, start, sent, chan, back, held, got, doneP, doneS, crashes, result>>
None == [b |-> <<>>, st |-> "no"]
All(x) == [p \in P |-> x]
Init == /\ run = All("down") /\ priv = All(0) /\ fresh = 1 /\ ckS = All(0) /\ ckP = All(0)
        /\ sto = All(<<>>) /\ sti = All(<<>>) /\ start = All(0) /\ sent = All(0)
        /\ chan = All(<<>>) /\ back = All(<<>>) /\ held = All(None) /\ got = All(None)
        /\ doneP = All(FALSE) /\ doneS = All(FALSE) /\ crashes = 0 /\ result = All({})
\* both parties come up: keys are drawn or read, stores cut back, positions agreed
StartAt(p, cs, cp) == IF p \in Gets /\ Peer(p) \in Gets THEN Min(cp[Peer(p)], cs[p])
                      ELSE IF p \in Gets THEN cs[p] ELSE cp[Peer(p)]
Session == /\ run = All("down")
           /\ priv' = [p \in P |-> IF priv[p] # 0 THEN priv[p] ELSE fresh + (IF p = "a" THEN 0 ELSE 1)]
           /\ fresh' = fresh + 2
           /\ sto' = [p \in P |-> IF KeepTail THEN sto[p] ELSE SubSeq(sto[p], 1, Min(ckS[p], Len(sto[p])))]
           /\ sti' = [p \in P |-> IF KeepTail THEN sti[p] ELSE SubSeq(sti[p], 1, Min(ckP[p], Len(sti[p])))]
           /\ start' = [p \in P |-> StartAt(p, ckS, ckP)] /\ sent' = start'
           /\ chan' = All(<<>>) /\ back' = All(<<>>) /\ held' = All(None) /\ got' = All(None)
           /\ doneP' = All(FALSE) /\ doneS' = All(FALSE)
           /\ run' = All("up") /\ UNCHANGED <<ckS, ckP, crashes, result>>
\* the next batch, or the empty one that ends the stream
Send(p) == /\ run[p] = "up" /\ sent[p] <= Len(Keys[p])
           /\ LET hi == Min(sent[p] + Batch, Len(Keys[p]))
                  b == [i \in 1..(hi - sent[p]) |-> [k |-> Keys[p][sent[p] + i], m |-> {priv[p]}]]
              IN /\ chan' = [chan EXCEPT ![p] = Append(@, b)]
                 /\ sent' = [sent EXCEPT ![p] = IF b = <<>> THEN Len(Keys[p]) + 1 ELSE hi]
           /\ UNCHANGED <<run, priv, fresh, ckS, ckP, sto, sti, start, back, held, got, doneP, doneS, crashes, result>>
Mask(p) == LET q == Peer(p) IN
           /\ run[p] = "up" /\ held[p].st = "no" /\ chan[q] # <<>>
           /\ held' = [held EXCEPT ![p] = [b |-> [i \in DOMAIN Head(chan[q]) |->
                          [Head(chan[q])[i] EXCEPT !.m = @ \cup {priv[p]}]], st |-> "file"]]
           /\ chan' = [chan EXCEPT ![q] = Tail(@)]
           /\ UNCHANGED <<run, priv, fresh, ckS, ckP, sto, sti, start, sent, back, got, doneP, doneS, crashes, result>>
KeepPeer(p) == /\ run[p] = "up" /\ held[p].st # "no" /\ held[p].st = "file"
               /\ sti' = IF p \in Gets THEN [sti EXCEPT ![p] = @ \o held[p].b] ELSE sti
               /\ held' = [held EXCEPT ![p] = [@ EXCEPT !.st = "ck"]]
               /\ UNCHANGED <<run, priv, fresh, ckS, ckP, sto, start, sent, chan, back, got, doneP, doneS, crashes, result>>
CkPeer(p) == /\ run[p] = "up" /\ held[p].st # "no" /\ held[p].st = "ck"
             /\ ckP' = IF p \in Gets THEN [ckP EXCEPT ![p] = @ + Len(held[p].b)] ELSE ckP
             /\ held' = [held EXCEPT ![p] = [@ EXCEPT !.st = "reply"]]
             /\ UNCHANGED <<run, priv, fresh, ckS, sto, sti, start, sent, chan, back, got, doneP, doneS, crashes, result>>
Reply(p) == LET q == Peer(p) IN
            /\ run[p] = "up" /\ held[p].st # "no" /\ held[p].st = "reply"
            /\ back' = IF q \in Gets THEN [back EXCEPT ![q] = Append(@, held[p].b)] ELSE back
            /\ doneP' = [doneP EXCEPT ![p] = held[p].b = <<>>]
            /\ held' = [held EXCEPT ![p] = None]
            /\ UNCHANGED <<run, priv, fresh, ckS, ckP, sto, sti, start, sent, chan, got, doneS, crashes, result>>
KeepSelf(p) == /\ run[p] = "up" /\ got[p].st = "no" /\ back[p] # <<>>
               /\ sto' = [sto EXCEPT ![p] = @ \o Head(back[p])]
               /\ got' = [got EXCEPT ![p] = [b |-> Head(back[p]), st |-> "ck"]]
               /\ back' = [back EXCEPT ![p] = Tail(@)]
               /\ UNCHANGED <<run, priv, fresh, ckS, ckP, sti, start, sent, chan, held, doneP, doneS, crashes, result>>
CkSelf(p) == /\ run[p] = "up" /\ got[p].st # "no"
             /\ ckS' = [ckS EXCEPT ![p] = @ + Len(got[p].b)]
             /\ doneS' = [doneS EXCEPT ![p] = got[p].b = <<>>]
             /\ got' = [got EXCEPT ![p] = None]
             /\ UNCHANGED <<run, priv, fresh, ckP, sto, sti, start, sent, chan, back, held, doneP, crashes, result>>
Finished(p) == sent[p] > Len(Keys[p]) /\ doneP[p] /\ (p \in Gets => doneS[p])
Finish == /\ run = All("up") /\ \A p \in P : Finished(p)
          /\ run' = All("done")
          /\ result' = [p \in P |-> IF p \in Gets THEN {i \in DOMAIN sto[p] : \E j \in DOMAIN sti[p] : sti[p][j] = sto[p][i]} ELSE {}]
          /\ UNCHANGED <<priv, fresh, ckS, ckP, sto, sti, start, sent, chan, back, held, got, doneP, doneS, crashes>>
\* a party stops; bytes still in its buffers may or may not have reached the files
Crash(p) == /\ run = All("up") /\ crashes < MaxCrash
            /\ crashes' = crashes + 1
            /\ \E n \in 0..Len(sto[p]), m \in 0..Len(sti[p]) :
                 /\ n >= Min(ckS[p], Len(sto[p])) /\ m >= Min(ckP[p], Len(sti[p]))
                 /\ sto' = [sto EXCEPT ![p] = SubSeq(@, 1, n)]
                 /\ sti' = [sti EXCEPT ![p] = SubSeq(@, 1, m)]
            /\ run' = All("down")
            /\ chan' = All(<<>>) /\ back' = All(<<>>) /\ held' = All(None) /\ got' = All(None)
            /\ doneP' = All(FALSE) /\ doneS' = All(FALSE)
            /\ UNCHANGED <<priv, fresh, ckS, ckP, start, sent, result>>
Next == \/ Session \/ Finish
        \/ \E p \in P : Send(p) \/ Mask(p) \/ KeepPeer(p) \/ CkPeer(p) \/ Reply(p) \/ KeepSelf(p) \/ CkSelf(p) \/ Crash(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
Truth(p) == {i \in DOMAIN Keys[p] : \E j \in DOMAIN Keys[Peer(p)] : Keys[p][i] = Keys[Peer(p)][j]}
\* whatever stopped whom and how often: exactly the matching positions of one's own input
Exact == run = All("done") => \A p \in Gets : result[p] = Truth(p)
\* one's own store is the prefix of one's own keys, in order, so that positions mean rows
Aligned == \A p \in Gets : run[p] = "up" => \A i \in DOMAIN sto[p] : i <= Len(Keys[p]) /\ sto[p][i].k = Keys[p][i]
\* all stored values are under the same two private keys
OneKey == \A p \in P : \A i \in DOMAIN sto[p] : sto[p][i].m = {priv["a"], priv["b"]}
\* a checkpoint never runs ahead of the file it describes
Behind == \A p \in Gets : ckS[p] <= Len(sto[p]) /\ ckP[p] <= Len(sti[p])
Ends == <>(run = All("done"))
=============================================================================
