SPECIFICATION Spec
CONSTANTS P = 7
 N = 3
INVARIANTS Interpolates Reproduces
CHECK_DEADLOCK FALSE
