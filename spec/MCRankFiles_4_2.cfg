SPECIFICATION Spec
CONSTANTS NQ=4 P=2 NW=2 NV=2
INVARIANTS Disjoint Assembled PPCover
PROPERTY Finishes
CHECK_DEADLOCK FALSE
