SPECIFICATION Spec
CONSTANT KeepOrder = FALSE
CONSTRAINT Mark
CHECK_DEADLOCK FALSE
