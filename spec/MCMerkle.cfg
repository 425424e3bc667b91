SPECIFICATION Spec
INVARIANT Binding
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 4
 Values = {0, 1}
 MaxPath = 3
 CheckRange = TRUE
