SPECIFICATION Spec
CONSTANTS NQ=3 P=3 NW=2 NV=2
INVARIANTS Disjoint Assembled PPCover
PROPERTY Finishes
CHECK_DEADLOCK FALSE
