SPECIFICATION Spec
CONSTANTS NMax = 5
 PMax = 4
 Retyped = FALSE
INVARIANTS Isolated SameWork Typed
PROPERTY Ends
CHECK_DEADLOCK FALSE
