SPECIFICATION MSpec
INVARIANTS Kept Ordered
CHECK_DEADLOCK FALSE
