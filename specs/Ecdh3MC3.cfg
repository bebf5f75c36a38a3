SPECIFICATION Spec
CONSTANTS U = 3
 KeepOrder = FALSE
INVARIANTS Exact NoLink
CHECK_DEADLOCK FALSE
