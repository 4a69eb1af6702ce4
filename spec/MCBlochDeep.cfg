SPECIFICATION Spec
CONSTANTS Depth = 3
 Vals = {2}
INVARIANTS Hermitian Closed BackTransform
CHECK_DEADLOCK FALSE
