SPECIFICATION Spec
CONSTANTS MaxRows = 3
 Keys = {1, 2, 3}
INVARIANTS Proj Accepts
CHECK_DEADLOCK FALSE
