SPECIFICATION Spec
CONSTANTS NMax = 5
 PMax = 4
 Retyped = FALSE
INVARIANTS Emit
VIEW View
CHECK_DEADLOCK FALSE
