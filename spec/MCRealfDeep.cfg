SPECIFICATION Spec
CONSTANTS N = 3
 V = 1
 Seg = 1
 Len1 = 2
 Mus = 2
 Lost = FALSE
INVARIANTS Surface Exists EachNearest Target Quads
CHECK_DEADLOCK FALSE
