SPECIFICATION Spec
CONSTANTS Ns = {3, 5, 6}
 U = 2
INVARIANTS Right Kept
CHECK_DEADLOCK FALSE
