SPECIFICATION Spec
CONSTANTS Depth = 2
 Vals = {1, 2}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
