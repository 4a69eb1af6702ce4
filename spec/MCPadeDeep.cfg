SPECIFICATION Spec
CONSTANTS P = 7
 N = 4
INVARIANTS Interpolates Reproduces
CHECK_DEADLOCK FALSE
