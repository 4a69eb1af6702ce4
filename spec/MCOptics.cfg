SPECIFICATION Spec
CONSTANTS
  NR = 2
  NK = 2
  Vals = {0, 1}
  WMax = 1
  NV = 1
INVARIANTS Whole Once MirrorOk NotationShift
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
