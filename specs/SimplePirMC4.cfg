SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Qs = {31, 64, 97} Ps = {2, 3, 7} Cols = 3 R = 1 As = {0, 1, 30, 96} Ss = {0, 1, 30, 96}
INVARIANT Right
