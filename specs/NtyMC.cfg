SPECIFICATION Spec
CONSTANTS Ns = {3, 4, 5}
 U = 2
INVARIANT Right
CHECK_DEADLOCK FALSE
