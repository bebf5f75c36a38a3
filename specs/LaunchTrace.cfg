SPECIFICATION Spec
CONSTANT Twist = "none"
CONSTRAINT Mark
CHECK_DEADLOCK FALSE
