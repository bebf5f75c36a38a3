------------------------------ MODULE LaunchMC ------------------------------
EXTENDS Launch
CONSTANTS Keys, MaxRows, Joins
VARIABLES conf, tab, at, got
vars == <<conf, tab, at, got>>
Names == [n \in 1..5 |-> <<"INNER", "LEFT", "RIGHT", "FULL", "DIFF">>[n]]
Confs == {[recv |-> r, left |-> l, bc |-> b, jn |-> j, join |-> Names[j], proto |-> p, curve |-> 1, batch |-> x, bucket |-> x, low |-> FALSE,
           rec |-> FALSE, null |-> "NULL", level |-> v] :
             r \in 0..1, l \in 0..1, b \in BOOLEAN, j \in Joins, p \in {"ecdh", "kkrt"}, x \in 1..2, v \in {"info", "loud"}}
Tables == UNION {[1..n -> Keys] : n \in 1..MaxRows}
T(f) == [i \in DOMAIN f |-> [k |-> f[i], row |-> i]]
\* the second one is told the same, or something else in one respect
Fields == {"recv", "left", "bc", "jn", "proto", "batch", "bucket", "level"}
Near(c) == {d \in Confs : Cardinality({f \in Fields : c[f] # d[f]}) <= 1}
Init == /\ \E c \in Confs : \E d \in Near(c) : conf = <<c, d>>
        /\ \E f, g \in Tables : tab = <<T(f), T(g)>>
        /\ at = <<"start", "start">> /\ got = <<{}, {}>>
O(p) == Own_(conf[p + 1], p)
Say(p) == at[p + 1] = "start" /\ at' = [at EXCEPT ![p + 1] = IF Proper(conf[p + 1]) THEN "told" ELSE "left"] /\ UNCHANGED <<conf, tab, got>>
Give(p) == at[p + 1] = "told" /\ at[2 - p] = "left" /\ at' = [at EXCEPT ![p + 1] = "left"] /\ UNCHANGED <<conf, tab, got>>
Check(p) == /\ at[p + 1] = "told" /\ at[2 - p] \in {"told", "in", "done"}
            /\ at' = [at EXCEPT ![p + 1] = IF Fits(O(p), O(1 - p)) THEN "in" ELSE "left"]
            /\ UNCHANGED <<conf, tab, got>>
\* it writes each of its lines as often as its role says
Lines(p) == LET o == O(p) IN
            {<<i, k>> \in (1..MaxRows) \X (1..MaxRows) :
               i \in Idx(tab[p + 1]) /\ k <= Times(conf[p + 1].join, LeftBy(o), tab[p + 1], tab[2 - p], i)}
Run(p) == /\ at[p + 1] = "in" /\ at[2 - p] \in {"in", "done"}
          /\ at' = [at EXCEPT ![p + 1] = "done"]
          /\ got' = [got EXCEPT ![p + 1] = IF GetsBy(O(p)) THEN Lines(p) ELSE {}]
          /\ UNCHANGED <<conf, tab>>
Next == \E p \in 0..1 : Say(p) \/ Give(p) \/ Check(p) \/ Run(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
Same == \A f \in Fields : conf[1][f] = conf[2][f]
\* told the same, and properly: it runs; told different things that matter: nobody does
Runs == (at[1] \in {"in", "done"} \/ at[2] \in {"in", "done"}) => Agreed(conf)
Equal == Same /\ Proper(conf[1]) => Agreed(conf)
Differ == (\E f \in {"recv", "left", "bc", "jn", "proto", "level"} : conf[1][f] # conf[2][f]) => ~Agreed(conf)
\* exactly one receives, and what comes out is the join of the tables by their places
ByPlace == (at = <<"done", "done">>) =>
  LET l == conf[1].left  a == tab[l + 1]  b == tab[2 - l]
      pairs == JoinPairs(conf[1].join, a, b)
      mine(p, i) == IF p = l THEN {x \in pairs : x[1] = i} ELSE {x \in pairs : x[2] = i}
  IN /\ O(0).role # O(1).role
     /\ \A p \in 0..1 : got[p + 1] = IF Gets(conf, p)
                           THEN {<<i, k>> \in (1..MaxRows) \X (1..MaxRows) : i \in Idx(tab[p + 1]) /\ k <= Cardinality(mine(p, i))} ELSE {}
\* a server and a client, whichever place each has, mean the same table by the left one
UbAgree == \A l, rs \in 0..1 : /\ UbLeft("s", l, rs) = UbLeft("c", l, 1 - rs)
                               /\ (UbLeft("s", l, rs) = "s") = (l = rs)
AllStop == <>(\A p \in 1..2 : at[p] \in {"left", "done"})
=============================================================================
