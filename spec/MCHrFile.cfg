SPECIFICATION Spec
CONSTANTS NR = 33
 NB = 2
INVARIANTS RoundTrip
CHECK_DEADLOCK FALSE
