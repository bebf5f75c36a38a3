SPECIFICATION MSpec
CONSTANTS NIn = 3
 NBin = 4
 NHash = 3
 NStash = 1
 MaxTry = 4
INVARIANTS Once Result
CHECK_DEADLOCK FALSE
