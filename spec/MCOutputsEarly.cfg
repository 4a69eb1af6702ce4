SPECIFICATION Spec
CONSTANTS N = 2
  Early = TRUE
INVARIANT ReadsExist
CHECK_DEADLOCK FALSE
