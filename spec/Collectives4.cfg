SPECIFICATION CSpec
CONSTANTS NRanks = 4
 MaxTasks = 9
 Ops = {"scatter", "gather", "allgather", "allreduce", "bcast"}
 MaxLen = 1
INVARIANTS Correct BlocksOk SyncPoint
