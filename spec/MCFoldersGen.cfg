SPECIFICATION Spec
CONSTANTS NRuns = 2
 NRanks = 1
 KMax = 1
 Poly = FALSE
INVARIANTS Emit
