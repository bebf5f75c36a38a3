SPECIFICATION MSpec
CONSTANTS Inputs = {1, 2, 3}
 Secrets = {1, 2}
INVARIANTS Meets Live
CHECK_DEADLOCK FALSE
