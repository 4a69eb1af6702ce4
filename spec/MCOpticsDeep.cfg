SPECIFICATION Spec
CONSTANTS
  NR = 3
  NK = 3
  Vals = {0, 1}
  WMax = 1
  NV = 2
INVARIANTS Whole Once MirrorOk NotationShift
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
