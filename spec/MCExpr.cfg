SPECIFICATION Spec
INVARIANTS Meaning Degree NonZero
CHECK_DEADLOCK FALSE
CONSTANTS
 P = 5
 MaxSteps = 2
