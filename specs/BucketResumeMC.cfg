SPECIFICATION Spec
CONSTANTS NB = 4
 Hits <- H
 MaxCrash = 3
INVARIANTS Exact Near
PROPERTY Ends
CHECK_DEADLOCK FALSE
