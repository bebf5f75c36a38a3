------------------------------- MODULE PpsMC --------------------------------
EXTENDS Pps, TLC, FiniteSetsExt
CONSTANTS M, Asks, Mode
VARIABLES plan, coins, st, ok
vars == <<plan, coins, st, ok>>
\* --- draws
Perms == {p \in [1..M -> Places] : \A a, b \in 1..M : a # b => p[a] # p[b]}
Coins1 == [base : Bases, shifts : Perms, alt : 0..(S - 1), b : Places, o : 0..(S - 2)]
Hide(w) == w.b < S - 1
View1(w, i) == Ask1(w.base, w.shifts, i, Nth(w.base, w.alt), Hide(w), w.o)
CoinM == [new : Bases, e : 0..(S - 1), b : Places, o : 0..(S - 2)]
Start == [1..M -> [base : Bases, d : Places]]
Known(s) == [k \in DOMAIN s |-> [base |-> s[k].base, d |-> s[k].d, sum |-> Shift(s[k].base, s[k].d)]]
CoinsM == [st : Start, c : [1..Asks -> CoinM]]
StepM(s, i, w) == AskM(s, i, w.new, Nth(w.new, w.e), Hide(w), w.o)
RECURSIVE ViewsM(_, _, _, _, _)
ViewsM(s, p, c, k, side) ==
  IF k > Len(p) THEN <<>>
  ELSE LET a == StepM(s, p[k], c[k]) IN <<IF side = "l" THEN a.l ELSE a.r>> \o ViewsM(a.st, p, c, k + 1, side)
\* --- step by step
Init == /\ ok = TRUE
        \* (all places are alike: the first one stands for any)
        /\ plan \in {p \in [1..Asks -> Places] : Mode = "countM" => p[1] = 0}
        /\ \/ Mode = "run" /\ coins = <<>> /\ \E s \in Start : st = Known(s)
           \/ Mode = "one" /\ coins \in Coins1 /\ st = <<>>
           \/ Mode \in {"count1", "countM"} /\ coins = <<>> /\ st = <<>>
Next == \/ /\ Mode = "run" /\ Len(coins) < Asks
           /\ \E w \in CoinM :
                LET i == plan[Len(coins) + 1]
                    a == StepM(st, i, w)
                    r == ReadM(a, Shown(a.l), Shown(a.r))
                IN /\ st' = r.st
                   /\ ok' = (r.val = {i} \/ (r.val = Abort /\ (Hide(w) \/ First(st, i) = 0)))
           /\ coins' = Append(coins, 0) /\ UNCHANGED plan
        \* (counting is left to a step, so that it is done for many plans at once)
        \/ Mode \in {"count1", "countM"} /\ st = <<>> /\ st' = <<1>> /\ UNCHANGED <<plan, coins, ok>>
Spec == Init /\ [][Next]_vars
Right == /\ ok
         /\ Mode = "one" => LET v == Read1(coins.base, coins.shifts, plan[1], Hide(coins), Shown(View1(coins, plan[1])))
                            IN v = {plan[1]} \/ (v = Abort /\ (Hide(coins) \/ Fits(coins.base, coins.shifts, plan[1]) = {}))
Sums == Mode = "run" => \A k \in DOMAIN st : st[k].sum = Shift(st[k].base, st[k].d)
\* --- the questions are alike likely whatever is asked: as many draws lead to each of them as for place 0
Qs == [left : {B \in SUBSET Places : Cardinality(B) = S - 1}, d : Places]
Tally(F(_), C, D) == FoldSet(LAMBDA w, t : LET v == F(w) IN [t EXCEPT ![v] = @ + 1], [m \in D |-> 0], C)
NothingSeen ==
  /\ (Mode = "count1" /\ st = <<1>>) => LET T == Tally(LAMBDA w : View1(w, plan[1]), Coins1, Qs) IN Cardinality({T[a] : a \in Qs}) = 1
  /\ (Mode = "countM" /\ st = <<1>>) => \A side \in {"l", "r"} :
       LET D == [1..Asks -> Qs]  T == Tally(LAMBDA w : ViewsM(w.st, plan, w.c, 1, side), CoinsM, D) IN Cardinality({T[a] : a \in D}) = 1
=============================================================================
