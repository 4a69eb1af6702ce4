SPECIFICATION Spec
CONSTANTS MaxN = 5
 V = 4
 Fallback = FALSE
INVARIANTS NonEmpty Nearest NotMost Physical Rejected
CHECK_DEADLOCK FALSE
