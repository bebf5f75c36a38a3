SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 4 S = 2 M = 1 Asks = 2 Mode = "countM"
INVARIANTS Right Sums NothingSeen
