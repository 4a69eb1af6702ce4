SPECIFICATION Spec
CONSTANTS
  Vals <- V4
  NEig = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
