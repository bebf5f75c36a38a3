SPECIFICATION MSpec
CONSTANT MaxLen = 4
INVARIANTS All Ended
CHECK_DEADLOCK FALSE
