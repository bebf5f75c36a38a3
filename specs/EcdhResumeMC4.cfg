SPECIFICATION Spec
CONSTANTS Keys <- K2
 Gets = {"a", "b"}
 Batch = 2
 MaxCrash = 2
 KeepTail = FALSE
INVARIANTS Exact Aligned OneKey Behind
PROPERTY Ends
CHECK_DEADLOCK FALSE
