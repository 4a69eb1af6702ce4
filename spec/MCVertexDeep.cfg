SPECIFICATION Spec
CONSTANTS P = 7
 Depth = 3
 GamSet = {0, 1, 2, 4, 6}
 X0Set = {1, 3, 5}
INVARIANTS PathIndependent Relations
CHECK_DEADLOCK FALSE
