------------------------------ MODULE AgreeTrace ------------------------------
(* Runs of two parties whose configurations differ in one field, or of which  *)
(* one meets a failure.                                                       *)
EXTENDS Psi2Trace
Shared == {"protocol", "curve", "batch", "bucket", "low", "broadcast", "join", "left", "digest", "null", "recovery", "role", "same_role"}
Wrong == {"s_nokeys", "s_twice", "s_nocol", "s_nofile", "s_intype", "s_outtype", "s_nocurve"}  \* nothing a party may run with
Field == IF "field" \in DOMAIN In THEN In.field ELSE "none"
\* both refuse, nobody writes a result, and nothing but the configurations was exchanged
Ref == Is("Ref") /\ Field \in Shared \cup Wrong /\ E.st = "err" /\ ~E.out /\ UNCHANGED got
Wire == Is("Wire") /\ E.n <= 1500 /\ UNCHANGED got
\* every party stops; one that cannot read its input or write its output does not report success
Stop == /\ Is("Stop")
        /\ \A p \in {"s", "r"} : E[p] \in IF In.what = "crash" /\ p = In.who THEN {"ok", "err", "crash"} ELSE {"ok", "err"}
        /\ In.what \in {"ragged", "empty"} => E.s = "err" /\ E.r = "err"
        /\ In.what = "out" => E[In.who] = "err"
        /\ UNCHANGED got
ANext == (Field \in {"none", "p_align", "p_debug", "p_count"} /\ Next) \/ Ref \/ Wire \/ Stop
ASpec == Init /\ [][ANext]_<<ci, l, got>>
=============================================================================
