SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS C = 2 K = 2 M = 2 Reps = 2 Spares = 1 Asks = 2 Counting = TRUE
INVARIANTS Right Sums NothingSeen
