SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3}
  MaxRows = 3
  MaxWeight = 2
  Q = 19
INVARIANTS Right Billed Bound Lines Late Hidden
CHECK_DEADLOCK FALSE
