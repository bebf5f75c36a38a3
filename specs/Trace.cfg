SPECIFICATION Spec
CONSTRAINT Mark
CHECK_DEADLOCK FALSE
