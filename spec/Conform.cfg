SPECIFICATION Spec
CONSTANT Failures <- Fail
INVARIANT Conforms
CHECK_DEADLOCK FALSE
