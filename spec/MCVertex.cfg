SPECIFICATION Spec
CONSTANTS P = 5
 Depth = 3
 GamSet = {0, 1, 3}
 X0Set = {1, 2, 3}
INVARIANTS PathIndependent Relations
CHECK_DEADLOCK FALSE
