SPECIFICATION Spec
CONSTANTS
 N = 3
 L = 3
INVARIANTS Sound
CONSTRAINT Note
POSTCONDITION Tight
