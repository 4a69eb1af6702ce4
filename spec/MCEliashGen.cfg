SPECIFICATION Spec
CONSTANTS
  Vals <- V3
  NEig = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
