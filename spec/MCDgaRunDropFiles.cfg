SPECIFICATION Spec
CONSTANTS
 N = 2
 Feats <- VFeats
 Drops <- DropFiles
INVARIANTS ReadComplete
