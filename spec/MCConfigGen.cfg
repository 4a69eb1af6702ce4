SPECIFICATION Spec
CONSTANTS M = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
