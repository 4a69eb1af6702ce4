SPECIFICATION Spec
CONSTANTS MaxN = 6
 V = 5
 Fallback = TRUE
INVARIANTS NonEmpty Nearest NotMost Physical Rejected
CHECK_DEADLOCK FALSE
