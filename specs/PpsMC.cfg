SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 4 S = 2 M = 2 Asks = 2 Mode = "run"
INVARIANTS Right Sums NothingSeen
