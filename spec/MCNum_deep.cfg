SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
CONSTANTS
 Fields = {5, 17, 97, 193}
 MaxLen = 16
 MaxF = 16
 MaxCpus = 9
 Dense = 5000
