SPECIFICATION Spec
CONSTANTS Design = "eager" B = 2 MaxLen = 4
INVARIANTS Concatenation Injective
CHECK_DEADLOCK FALSE
