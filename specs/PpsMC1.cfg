SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 5 S = 2 M = 3 Asks = 1 Mode = "one"
INVARIANTS Right Sums NothingSeen
