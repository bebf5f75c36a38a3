SPECIFICATION MSpec
CONSTANTS D = {1, 2, 3}
 N = 2
INVARIANTS Meet Loadable
CHECK_DEADLOCK FALSE
