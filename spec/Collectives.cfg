SPECIFICATION CSpec
CONSTANTS NRanks = 3
 MaxTasks = 4
 Ops = {"scatter", "gather", "allgather", "allreduce", "bcast"}
 MaxLen = 2
INVARIANTS Correct BlocksOk SyncPoint
