SPECIFICATION MSpec
CONSTANTS NW = 3
 NV = 4
 Depth = 4
INVARIANTS Provenance Centred
CHECK_DEADLOCK FALSE
