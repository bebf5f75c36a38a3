SPECIFICATION Spec
CONSTANTS N = 4 NC = 4 ND = 1 W = 2 Random = TRUE
INVARIANTS GivesBack EveryTable NoneMeansSingular
CHECK_DEADLOCK FALSE
