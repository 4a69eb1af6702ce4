SPECIFICATION Spec
CONSTANTS
 N = 3
 L = 2
INVARIANTS Sound
CONSTRAINT Note
POSTCONDITION Tight
