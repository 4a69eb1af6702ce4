SPECIFICATION Spec
CONSTANTS
 P = 7
 Vals = {0, 1, 3, 5}
INVARIANTS LocalLimit LambdaAdds GammaBack Physical
CHECK_DEADLOCK FALSE
