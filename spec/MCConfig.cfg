SPECIFICATION Spec
CONSTANTS M = 4
INVARIANTS Kept Consistent RejectedOk AcceptedOk OptKept OptConsistent Idempotent
CHECK_DEADLOCK FALSE
