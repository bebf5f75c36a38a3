--------------------------------- MODULE Nty ---------------------------------
(* Multi-party intersection with a helping server.  The server (1) holds the  *)
(* keys of all plain parties (4..n); an encoded table sends x to a value if x *)
(* was put in and to junk otherwise.  The helper (2) and the receiver (3)     *)
(* compare what they decode under a common key; the server matches.           *)
EXTENDS MpPsi
Plain(sets) == 4..Len(sets)
\* what the helper and the receiver hold for x, as sets of keyed values; <<"junk", i, x>> equals nothing else
HelperVal(sets, x) ==
  {IF x \in sets[i] THEN <<"prf", i, x>> ELSE <<"junk", i, x>> : i \in Plain(sets)} \cup
    (IF Len(sets) = 3 THEN {<<"prf", 1, x>>} ELSE {})
RecvVal(sets, x) ==
  IF x \in sets[1] THEN {<<"prf", i, x>> : i \in IF Len(sets) = 3 THEN {1} ELSE Plain(sets)} ELSE {<<"junk", 0, x>>}
\* the server sees which masked values agree; the receiver looks them up
Result(sets) == {x \in sets[3] : \E y \in sets[2] : HelperVal(sets, y) = RecvVal(sets, x)}
=============================================================================
