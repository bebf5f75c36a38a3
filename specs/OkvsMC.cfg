SPECIFICATION Spec
CONSTANTS N = 3 NC = 3 ND = 1 W = 2 Random = TRUE
INVARIANTS GivesBack EveryTable NoneMeansSingular
CHECK_DEADLOCK FALSE
