SPECIFICATION Spec
CONSTANTS NR = 2
 MaxLen = 5
 MaxTick = 1
 Variant = "lost"
 Gen = FALSE
INVARIANTS Faithful
CHECK_DEADLOCK FALSE
