SPECIFICATION Spec
CONSTANTS NK <- NKdef
 Depth = 4
INVARIANT Holds
CHECK_DEADLOCK FALSE
