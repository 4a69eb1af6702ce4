SPECIFICATION Spec
CONSTANTS NMax = 4
 PMax = 3
 Retyped = FALSE
INVARIANTS Isolated SameWork Typed
PROPERTY Ends
CHECK_DEADLOCK FALSE
