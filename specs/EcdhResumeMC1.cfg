SPECIFICATION Spec
CONSTANTS Keys <- K1
 Gets = {"a"}
 Batch = 2
 MaxCrash = 2
 KeepTail = FALSE
INVARIANTS Exact Aligned OneKey Behind
PROPERTY Ends
CHECK_DEADLOCK FALSE
