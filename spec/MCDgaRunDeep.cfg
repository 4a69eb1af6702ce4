SPECIFICATION Spec
CONSTANTS
 N = 4
 Feats <- AllFeats
 Drops <- NoDrop
INVARIANTS ReadComplete FolderFirst Clean NoRace
CHECK_DEADLOCK TRUE
