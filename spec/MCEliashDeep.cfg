SPECIFICATION Spec
CONSTANTS
  Vals <- V2
  NEig = 2
INVARIANTS Leading Ordered
CHECK_DEADLOCK FALSE
