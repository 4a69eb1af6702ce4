SPECIFICATION Spec
CONSTANTS NR = 2
 MaxLen = 5
 MaxTick = 1
 Variant = "none"
 Gen = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
