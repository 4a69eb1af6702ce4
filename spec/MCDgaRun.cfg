SPECIFICATION Spec
CONSTANTS
 N = 3
 Feats <- QFeats
 Drops <- NoDrop
INVARIANTS ReadComplete FolderFirst Clean NoRace
PROPERTY Progress
CHECK_DEADLOCK TRUE
