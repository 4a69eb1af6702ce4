SPECIFICATION Spec
CONSTANTS NR = 62
 NB = 3
INVARIANTS RoundTrip
CHECK_DEADLOCK FALSE
