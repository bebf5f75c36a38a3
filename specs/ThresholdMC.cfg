SPECIFICATION Spec
CONSTANTS U = 3
 N = 3
 Thrs = {1, 2}
 Fixed = FALSE
 DupOfPlace = FALSE
INVARIANTS Right Limited
PROPERTY Done
CHECK_DEADLOCK FALSE
