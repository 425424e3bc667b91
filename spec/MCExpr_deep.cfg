SPECIFICATION Spec
INVARIANTS Meaning Degree NonZero
CHECK_DEADLOCK FALSE
CONSTANTS
 P = 17
 MaxSteps = 2
