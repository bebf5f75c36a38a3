SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3}
  MaxRows = 2
  MaxWeight = 2
  Q = 13
INVARIANTS Right Billed Bound Lines Late Hidden
CHECK_DEADLOCK FALSE
