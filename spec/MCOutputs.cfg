SPECIFICATION Spec
CONSTANTS N = 2
  Early = FALSE
INVARIANTS ReadsExist EndsAsPromised
CHECK_DEADLOCK FALSE
