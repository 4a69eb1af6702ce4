SPECIFICATION Spec
CONSTANTS NR = 2
 MaxLen = 5
 MaxTick = 1
 Variant = "reset"
 Gen = FALSE
INVARIANTS Times
CHECK_DEADLOCK FALSE
