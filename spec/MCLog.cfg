SPECIFICATION Spec
CONSTANTS NR = 3
 MaxLen = 6
 MaxTick = 2
 Variant = "none"
 Gen = FALSE
INVARIANTS Faithful Times Monotone
VIEW View
CHECK_DEADLOCK FALSE
