SPECIFICATION Spec
CONSTANTS
 P = 11
 Vals = {0, 1, 4, 6, 9}
INVARIANTS LocalLimit LambdaAdds GammaBack Physical
CHECK_DEADLOCK FALSE
