------------------------------- MODULE Dkpir -------------------------------
(* Private look-up of keys with several rows each, paid for by the row       *)
(* (psi/algorithm/dkpir).  A table is a sequence of <<key, row>>.  The       *)
(* server's answers to the oblivious function come back shuffled, so that a  *)
(* client can count the rows it was sent but not tell which key has how      *)
(* many; it learns the shuffle once the number it names has been checked     *)
(* against the sum of encrypted counts, each hidden behind a secret line.    *)
EXTENDS Integers, Sequences, FiniteSets
KeysOf(T) == {T[i][1] : i \in 1..Len(T)}
Total(T, ks) == Cardinality({i \in 1..Len(T) : T[i][1] \in ks})
Asked(T, ks) == SelectSeq(T, LAMBDA r : r[1] \in ks)
SetOf(s) == {s[i] : i \in 1..Len(s)}
AllFound(T, ask) == SetOf(ask) \subseteq KeysOf(T)
\* the line a*x + b under every count; n keys have a*total + b*n.  A sum of cipher texts of w keys in all, of r rows in all, with
\* t added to it, passes for every line (and for a random one but with a chance of nothing) only if w = n, r = claim and t = 0
Passes(w, r, t, claim, n) == w = n /\ r = claim /\ t = 0
\* the same, spelt out for lines over the numbers below q
PassesAll(w, r, t, claim, n, q) ==
  \A a \in 0..(q - 1), b \in 0..(q - 1) : (a * r + b * w + t) % q = (a * claim + b * n) % q
\* the messages of a session with counting in the order they are sent
Step(ph, m) ==
  CASE ph = "start" /\ m = "ask" -> "ask"
    [] ph = "ask" /\ m = "answer" -> "answer"
    [] ph = "answer" /\ m = "query" -> "query"
    [] ph = "query" /\ m = "parts" -> "count"
    [] ph = "count" /\ m = "part" -> "count"
    [] ph = "count" /\ m = "sum" -> "sum"
    [] ph = "sum" /\ m = "parts" -> "data"
    [] ph = "data" /\ m = "part" -> "data"
    [] ph = "data" /\ m = "claim" -> "claim"
    [] ph = "claim" /\ m = "seed" -> "seed"
    [] ph = "seed" /\ m = "ctr" -> "done"
    [] OTHER -> "wrong"
\* and of one without
Plain(ph, m) ==
  CASE ph = "start" /\ m = "ask" -> "ask"
    [] ph = "ask" /\ m = "answer" -> "answer"
    [] ph = "answer" /\ m = "query" -> "query"
    [] ph = "query" /\ m = "parts" -> "data"
    [] ph = "data" /\ m = "part" -> "data"
    [] OTHER -> "wrong"
RECURSIVE Reached(_, _, _)
Reached(skip, ph, ms) == IF ms = <<>> THEN ph ELSE Reached(skip, IF skip THEN Plain(ph, ms[1]) ELSE Step(ph, ms[1]), Tail(ms))
=============================================================================
