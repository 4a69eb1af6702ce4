SPECIFICATION MSpec
CONSTANTS NW = 3
 NV = 4
 Depth = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
