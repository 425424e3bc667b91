SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
CONSTANTS
 Fields = {5, 17, 97}
 MaxLen = 8
 MaxF = 8
 MaxCpus = 5
 Dense = 700
