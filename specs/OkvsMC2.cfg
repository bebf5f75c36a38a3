SPECIFICATION Spec
CONSTANTS N = 3 NC = 3 ND = 2 W = 2 Random = FALSE
INVARIANTS GivesBack EveryTable NoneMeansSingular
CHECK_DEADLOCK FALSE
