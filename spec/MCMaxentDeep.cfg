SPECIFICATION Spec
CONSTANTS NCand = 4
 VMax = 3
 EFirst = 3
 ELast = 0
 Lost = FALSE
INVARIANTS Aligned Monotone Default Record StartsLast
CHECK_DEADLOCK FALSE
