SPECIFICATION Spec
CONSTANTS WMax = 3
 VMax = 5
 Runs = 3
INVARIANTS Same Symmetric Fits Full
CHECK_DEADLOCK FALSE
