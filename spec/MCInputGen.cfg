SPECIFICATION Spec
CONSTANTS WMax = 2
 VMax = 3
 Runs = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
