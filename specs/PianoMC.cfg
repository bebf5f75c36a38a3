SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS C = 2 K = 2 M = 2 Reps = 2 Spares = 1 Asks = 3 Counting = FALSE
INVARIANTS Right Sums NothingSeen
