SPECIFICATION Spec
CONSTANTS NR = 2
 MaxLen = 5
 MaxTick = 1
 Variant = "allwrite"
 Gen = FALSE
INVARIANTS Faithful
CHECK_DEADLOCK FALSE
