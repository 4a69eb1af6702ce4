SPECIFICATION Spec
CONSTANT M = 5
INVARIANTS Shifts Pp Inj WindowOk
