SPECIFICATION Spec
CONSTANTS
 Co = {0, 1, 7}
 Dev = {1, 2}
INVARIANTS Exact Unique Weight
CHECK_DEADLOCK FALSE
