SPECIFICATION MSpec
INVARIANT Same
CHECK_DEADLOCK FALSE
