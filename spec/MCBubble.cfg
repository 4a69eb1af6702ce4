SPECIFICATION Spec
CONSTANTS Nw = 2
 NV = 2
 Vals <- ValsDef
INVARIANTS Mirrored Relabel
CHECK_DEADLOCK FALSE
