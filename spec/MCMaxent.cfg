SPECIFICATION Spec
CONSTANTS NCand = 3
 VMax = 3
 EFirst = 2
 ELast = 0
 Lost = FALSE
INVARIANTS Aligned Monotone Default Record StartsLast
CHECK_DEADLOCK FALSE
