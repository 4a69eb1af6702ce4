SPECIFICATION Spec
CONSTANTS M = 6
INVARIANTS Kept Consistent RejectedOk AcceptedOk OptKept OptConsistent Idempotent
CHECK_DEADLOCK FALSE
