SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 7 S = 3 M = 2 Asks = 1 Mode = "count1"
INVARIANTS Right Sums NothingSeen
