SPECIFICATION Spec
CONSTANTS Max = 12
INVARIANTS RightOfPole
PROPERTIES Converges Monotone
CHECK_DEADLOCK FALSE
