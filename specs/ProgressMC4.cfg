SPECIFICATION Spec
CONSTANTS
  MaxNodes = 4
  Pcts = {0, 50, 100}
INVARIANTS Bounded DoneMeans100
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
