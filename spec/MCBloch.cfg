SPECIFICATION Spec
CONSTANTS Depth = 2
 Vals = {1, 2}
INVARIANTS Hermitian Closed BackTransform
CHECK_DEADLOCK FALSE
