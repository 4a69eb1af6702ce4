SPECIFICATION Spec
CONSTANTS NMax = 2
 AnyOrder = 1
INVARIANTS Averages Monotone Physical Invariant Orbits Bijection Count
PROPERTY Ends
CHECK_DEADLOCK FALSE
