------------------------------- MODULE Launch -------------------------------
(* Starting a task.  Everybody is told, in terms of places on the link, who   *)
(* receives and who is on the left, and the same of everything else that both *)
(* must do alike.  Each party makes of it its own role, and only if the two   *)
(* descriptions fit does anything happen.                                     *)
EXTENDS PsiJoin
CONSTANT Twist   \* "none"; otherwise the mistake the model is given, to see it noticed
RoleAt(c, rank) == IF c.recv = rank THEN "r" ELSE "s"
LeftRole(c, rank) == LET l == IF c.left = c.recv THEN "r" ELSE "s" IN
                     IF Twist = "left" /\ rank # c.left THEN (IF l = "r" THEN "s" ELSE "r") ELSE l
\* the protocols read different parts of the rest
Rest(c) == CASE c.proto = "ecdh" -> <<c.curve, c.batch>>
             [] c.proto = "kkrt" -> <<c.bucket>>
             [] c.proto = "rr22" -> <<c.bucket, c.low>>
\* what a party makes of what it is told
Own_(c, rank) == [role |-> RoleAt(c, rank), left |-> LeftRole(c, rank), bc |-> IF Twist = "bc" THEN TRUE ELSE c.bc,
                  join |-> c.jn, proto |-> c.proto, rest |-> Rest(c), rec |-> c.rec, null |-> c.null]
Proper(c) == c.level # "loud"       \* a configuration nobody may run with
Fits(x, y) == x.role # y.role /\ [x EXCEPT !.role = "-"] = [y EXCEPT !.role = "-"]
Agreed(conf) == Proper(conf[1]) /\ Proper(conf[2]) /\ Fits(Own_(conf[1], 0), Own_(conf[2], 1))
\* what was asked for, by places: the ones who get the result, and the table on the left
Gets(conf, p) == conf[p + 1].bc \/ conf[p + 1].recv = p
IsLeft(conf, p) == conf[p + 1].left = p
\* what a party does, by roles
GetsBy(o) == o.bc \/ o.role = "r"
LeftBy(o) == o.left = o.role
\* ---- a task among a server and a client: roles are given, the left is a place ----
UbLeft(role, left, rank) == IF (role = "s") = (left = rank) THEN "s" ELSE "c"
=============================================================================
