SPECIFICATION Spec
CONSTANTS WMax = 2
 VMax = 3
 Runs = 2
INVARIANTS Same Symmetric Fits Full
CHECK_DEADLOCK FALSE
