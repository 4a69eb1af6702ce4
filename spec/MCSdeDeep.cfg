SPECIFICATION Spec
CONSTANTS
  Ranks = {1, 2}
  NK = 3
  Vals = {0, 1}
  WSet = {0, 1}
  Local = FALSE
INVARIANTS Whole LocalLimit
CHECK_DEADLOCK FALSE
