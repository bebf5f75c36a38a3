SPECIFICATION Spec
CONSTANTS
  Ns = {2, 3, 4}
  U = 2
INVARIANTS Right Quiet
CHECK_DEADLOCK FALSE
