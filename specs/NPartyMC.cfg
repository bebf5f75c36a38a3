SPECIFICATION Spec
CONSTANTS Ns = {2, 3, 4}
 U = 2
INVARIANTS Right Kept
PROPERTY Ends
CHECK_DEADLOCK FALSE
