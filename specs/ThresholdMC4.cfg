SPECIFICATION Spec
CONSTANTS U = 3
 N = 4
 Thrs = {1, 2}
 Fixed = FALSE
 DupOfPlace = FALSE
INVARIANTS Right Limited
CHECK_DEADLOCK FALSE
