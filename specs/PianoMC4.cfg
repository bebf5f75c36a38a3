SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS C = 2 K = 2 M = 1 Reps = 2 Spares = 2 Asks = 3 Counting = TRUE
INVARIANTS Right Sums NothingSeen
