-------------------------------- MODULE Kmprt --------------------------------
(* Multi-party intersection from programmed functions.  Every party splits    *)
(* zero into shares per item and programs one function per other party with   *)
(* them; a function is junk where nothing was programmed.  Values are sets of *)
(* symbols, adding is symmetric difference.                                   *)
EXTENDS MpPsi, FiniteSetsExt
Plus(a, b) == (a \ b) \cup (b \ a)
Ps(sets) == DOMAIN sets
\* the share of dst in what src split for item x: random, and for the first party the sum of the others
Share(sets, src, dst, x) == IF dst = 1 THEN {<<"sh", src, d, x>> : d \in Ps(sets) \ {1}} ELSE {<<"sh", src, dst, x>>}
\* what dst gets out of the function of src at x
Out(sets, src, dst, x) == IF x \in sets[src] THEN Share(sets, src, dst, x) ELSE {<<"junk", src, dst, x>>}
Held(sets, p, x) == FoldSet(LAMBDA s, acc : Plus(acc, Out(sets, s, p, x)), {}, Ps(sets))
\* the leader asks everyone for what they hold at x
Sum(sets, ld, x) == FoldSet(LAMBDA p, acc : Plus(acc, IF x \in sets[p] THEN Held(sets, p, x) ELSE {<<"none", p, p, x>>}), {}, Ps(sets))
Result(sets, ld) == {x \in sets[ld] : Sum(sets, ld, x) = {}}
\* what anybody else holds never looks like a match
Silent(sets, ld) == \A p \in Ps(sets) \ {ld} : \A x \in sets[p] : Held(sets, p, x) # {}
=============================================================================
