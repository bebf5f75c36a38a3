SPECIFICATION Spec
CONSTANTS U = 2
 KeepOrder = FALSE
INVARIANTS Exact NoLink
PROPERTY Gets
CHECK_DEADLOCK FALSE
