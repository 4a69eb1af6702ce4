SPECIFICATION Spec
CONSTANTS
  Ranks = {1, 2}
  NK = 3
  Vals = {1, 2}
  WSet = {0, 1}
  Local = TRUE
INVARIANTS Whole LocalLimit
CHECK_DEADLOCK FALSE
