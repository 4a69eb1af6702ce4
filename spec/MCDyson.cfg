SPECIFICATION Spec
CONSTANT NMax = 4
INVARIANTS WindowOk WrapOk
CHECK_DEADLOCK FALSE
