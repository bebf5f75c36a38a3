SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Qs = {16, 19, 31, 32, 37, 61, 64} Ps = {2, 3, 4, 5} Cols = 2 R = 2 As = {0, 1, 12, 36, 63} Ss = {0, 1, 15, 60}
INVARIANT Right
