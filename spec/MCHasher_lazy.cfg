SPECIFICATION Spec
CONSTANTS Design = "lazy" B = 2 MaxLen = 4
INVARIANTS Concatenation Injective
CHECK_DEADLOCK FALSE
