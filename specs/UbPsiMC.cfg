SPECIFICATION Spec
CONSTANT PartialCopy = FALSE
INVARIANT Exact Result
CHECK_DEADLOCK FALSE
