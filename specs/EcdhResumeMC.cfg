SPECIFICATION Spec
CONSTANTS Keys <- K1
 Gets = {"a", "b"}
 Batch = 2
 MaxCrash = 1
 KeepTail = FALSE
INVARIANTS Exact Aligned OneKey Behind
PROPERTY Ends
CHECK_DEADLOCK FALSE
