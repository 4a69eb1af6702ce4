SPECIFICATION Spec
CONSTANTS NRuns = 3
 NRanks = 2
 KMax = 3
 Poly = FALSE
INVARIANTS Fresh NoSharing Agree Smallest Ready OldKept NamesOk
PROPERTIES Progress
VIEW View
