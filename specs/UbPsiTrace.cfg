SPECIFICATION Spec
CONSTANT PartialCopy = FALSE
CONSTRAINT Mark
CHECK_DEADLOCK FALSE
