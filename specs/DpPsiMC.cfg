SPECIFICATION Spec
CONSTANT U = 4
INVARIANT Right
CHECK_DEADLOCK FALSE
