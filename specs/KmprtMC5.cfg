SPECIFICATION Spec
CONSTANTS
  Ns = {2, 3, 4, 5}
  U = 3
INVARIANTS Right Quiet
CHECK_DEADLOCK FALSE
