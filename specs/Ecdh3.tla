-------------------------------- MODULE Ecdh3 --------------------------------
(* Three-party ECDH intersection as symbolic terms: <<x, M>> is item x masked *)
(* with the keys of the parties in M.  c receives, a computes the meeting of  *)
(* its own and b's masked sets, b hands a's items back in an order a cannot   *)
(* relate to its own.                                                         *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANT KeepOrder        \* TRUE: b answers in the order asked (to see the model notice)
VARIABLES sets,    \* [{"a","b","c"} -> set]
          seen     \* [<<from, to, masks>> -> items in the order sent]
e3 == <<sets, seen>>
Rg(s) == {s[i] : i \in 1..Len(s)}
Dist(s) == Cardinality(Rg(s)) = Len(s)
\* who sends what: items of whose set, under which masks, and after what
Chan == [f : {"a", "b", "c"}, t : {"a", "b", "c"}, m : {"a", "b", "c", "ab", "ac", "abc"}]
AB == sets["a"] \cap sets["b"]
May == {[f |-> "a", t |-> "b", m |-> "a"], [f |-> "b", t |-> "a", m |-> "b"], [f |-> "b", t |-> "a", m |-> "ab"],
        [f |-> "a", t |-> "c", m |-> "ab"], [f |-> "c", t |-> "a", m |-> "c"], [f |-> "a", t |-> "b", m |-> "ac"],
        [f |-> "b", t |-> "c", m |-> "abc"]}
Of(k) == CASE k.m = "a" -> sets["a"] [] k.m = "b" -> sets["b"] [] k.m = "ab" /\ k.f = "b" -> sets["a"]
           [] k.m = "ab" /\ k.f = "a" -> AB [] OTHER -> sets["c"]
K(f, t, m) == [f |-> f, t |-> t, m |-> m]
Begin == seen = [k \in May |-> <<>>]
\* what has to have arrived whole (answers that are reordered, the meeting) or as far as forwarded
Upto(c, n, w) == Len(c) >= n /\ SubSeq(c, 1, n) = w
Ready(k, xs) ==
  CASE k = K("b", "a", "ab") -> Rg(seen[K("a", "b", "a")]) = sets["a"]
    [] k = K("a", "c", "ab") -> Rg(seen[K("b", "a", "ab")]) = sets["a"] /\ Rg(seen[K("b", "a", "b")]) = sets["b"]
    [] k = K("a", "b", "ac") -> Upto(seen[K("c", "a", "c")], Len(seen[k]) + Len(xs), seen[k] \o xs)
    [] k = K("b", "c", "abc") -> Upto(seen[K("a", "b", "ac")], Len(seen[k]) + Len(xs), seen[k] \o xs)
    [] OTHER -> TRUE
Send(k, xs) == /\ k \in May /\ Rg(xs) \subseteq Of(k) /\ Dist(seen[k] \o xs) /\ Ready(k, xs)
               /\ (KeepOrder /\ k = K("b", "a", "ab")) => seen[k] \o xs = seen[K("a", "b", "a")]
               /\ seen' = [seen EXCEPT ![k] = @ \o xs] /\ UNCHANGED sets
Full == \A k \in May : Rg(seen[k]) = Of(k)
\* c compares <<x, abc>> of its own items, in its own order, with the meeting it masked itself
Result == {x \in Rg(seen[K("b", "c", "abc")]) : x \in Rg(seen[K("a", "c", "ab")])}
\* a can place an answer at its own item only by the order
Linked == IF KeepOrder THEN {x \in Rg(seen[K("b", "a", "ab")]) : x \in sets["b"]} ELSE {}
=============================================================================
