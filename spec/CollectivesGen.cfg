SPECIFICATION GSpec
CONSTANTS NRanks = 2
 MaxTasks = 4
 Ops = {"scatter", "gather", "allgather", "allreduce", "bcast"}
 MaxLen = 2
INVARIANT EmitPrograms
CHECK_DEADLOCK FALSE
