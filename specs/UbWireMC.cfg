SPECIFICATION Spec
CONSTANT KeepOrder = FALSE
INVARIANT Due AllDue NotDue
CHECK_DEADLOCK FALSE
