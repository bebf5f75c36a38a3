SPECIFICATION Spec
CONSTANTS MaxRows = 4
 Keys = {1, 2, 3}
INVARIANTS Proj Accepts
CHECK_DEADLOCK FALSE
