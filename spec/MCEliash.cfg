SPECIFICATION Spec
CONSTANTS
  Vals <- V1
  NEig = 3
INVARIANTS Leading Ordered
CHECK_DEADLOCK FALSE
