----------------------------- MODULE ChannelsMC -----------------------------
EXTENDS Channels, FiniteSets
CONSTANTS Chans, Max
VARIABLES sent, got    \* per channel
MInit == CStart /\ sent = [c \in Chans |-> <<>>] /\ got = [c \in Chans |-> <<>>]
MNext == \E c \in Chans :
  \/ /\ Len(sent[c]) < Max /\ LET v == <<c, Len(sent[c])>> IN Send(c, v) /\ sent' = [sent EXCEPT ![c] = Append(@, v)]
     /\ UNCHANGED got
  \/ /\ At(c) # <<>> /\ Recv(c, Head(At(c))) /\ got' = [got EXCEPT ![c] = Append(@, Head(At(c)))]
     /\ UNCHANGED sent
MSpec == MInit /\ [][MNext]_<<q, sent, got>>
Fifo == \A c \in Chans : got[c] \o At(c) = sent[c]
=============================================================================
