--------------------------- MODULE ChannelsTrace ---------------------------
(* Recorded traffic over pairwise links, and messages written down and read    *)
(* back.                                                                       *)
EXTENDS TraceLib, Channels
VARIABLES ci, l
Ev == Cases[ci].ev
E == Ev[l]
Init == ci \in 1..Len(Cases) /\ l = 1 /\ CStart
Is(e) == l <= Len(Ev) /\ E.e = e /\ l' = l + 1 /\ UNCHANGED ci
ESend == Is("Send") /\ Send(E.ch, E.v)
ERecv == Is("Recv") /\ Recv(E.ch, E.v)
EEmpty == Is("Empty") /\ Idle /\ UNCHANGED q
\* a message read back is the message
EMsg == Is("Msg") /\ E.put = E.got /\ UNCHANGED q
Next == ESend \/ ERecv \/ EEmpty \/ EMsg
Spec == Init /\ [][Next]_<<ci, l, q>>
Mark == /\ l > Len(Ev) => PrintT(<<"ACC", ci>>)
        /\ Verbose => PrintT(<<"AT", ci, l>>)
=============================================================================
