SPECIFICATION Spec
CONSTANTS NCand = 3
 VMax = 3
 EFirst = 2
 ELast = 0
 Lost = TRUE
INVARIANTS Aligned
CHECK_DEADLOCK FALSE
