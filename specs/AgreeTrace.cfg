SPECIFICATION ASpec
CONSTRAINT Mark
CHECK_DEADLOCK FALSE
