SPECIFICATION Spec
CONSTANTS N = 40
 P = 16
INVARIANTS Ok LastLong
