SPECIFICATION Spec
CONSTANTS N = 2
 V = 1
 Seg = 2
 Len1 = 3
 Mus = 3
 Lost = TRUE
INVARIANTS Surface Exists EachNearest Target Quads
CHECK_DEADLOCK FALSE
