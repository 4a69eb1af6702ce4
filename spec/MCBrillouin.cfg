SPECIFICATION Spec
CONSTANTS Meshes <- MeshSet
 MaxSyms = 4
INVARIANTS Sound RepInClass Complete
CHECK_DEADLOCK FALSE
