SPECIFICATION MSpec
CONSTANTS Keys = {1, 2}
 MaxRows = 3
INVARIANTS OneSort OneList Counts
CHECK_DEADLOCK FALSE
