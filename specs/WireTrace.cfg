SPECIFICATION Spec
CONSTANT AnyAnswer = FALSE
CONSTRAINT Mark
CHECK_DEADLOCK FALSE
