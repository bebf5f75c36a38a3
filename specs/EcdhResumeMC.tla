---- MODULE EcdhResumeMC ----
EXTENDS EcdhResume
K1 == [p \in P |-> IF p = "a" THEN <<1, 2, 3>> ELSE <<3, 1>>]
K2 == [p \in P |-> IF p = "a" THEN <<1, 2, 3, 4>> ELSE <<4, 2, 5>>]
====
