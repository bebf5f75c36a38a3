SPECIFICATION MSpec
CONSTANTS NIn = 3
 NBin = 3
 NHash = 2
 NStash = 1
 MaxTry = 3
INVARIANTS Once Result
CHECK_DEADLOCK FALSE
