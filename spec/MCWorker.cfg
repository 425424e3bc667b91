SPECIFICATION Spec
INVARIANTS Owned Cut Sequential AsCoded
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxN = 12
 MaxCpus = 6
