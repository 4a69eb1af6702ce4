SPECIFICATION Spec
INVARIANTS Right Commutes Unit
CHECK_DEADLOCK FALSE
