SPECIFICATION Spec
CONSTANTS
 N = 2
 Feats <- VFeats
 Drops <- DropFolder
INVARIANTS FolderFirst
