SPECIFICATION Spec
CONSTANTS NRuns = 2
 NRanks = 2
 KMax = 2
 Poly = TRUE
INVARIANTS Fresh NoSharing Agree Smallest Ready OldKept NamesOk
PROPERTIES Progress
VIEW View
