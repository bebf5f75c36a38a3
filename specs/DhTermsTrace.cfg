SPECIFICATION Spec
CONSTANTS Inputs = {1}
 Secrets = {1, 2, 3}
CONSTRAINT Mark
CHECK_DEADLOCK FALSE
