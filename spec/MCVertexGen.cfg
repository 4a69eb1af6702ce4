SPECIFICATION Spec
CONSTANTS P = 5
 Depth = 5
 GamSet = {1}
 X0Set = {1}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
