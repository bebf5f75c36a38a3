SPECIFICATION MSpec
CONSTANTS Chans = {1, 2, 3}
 Max = 3
INVARIANT Fifo
CHECK_DEADLOCK FALSE
