SPECIFICATION Spec
CONSTANTS NK <- NKdef
 Depth = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
