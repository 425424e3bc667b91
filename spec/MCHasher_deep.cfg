SPECIFICATION Spec
CONSTANTS Design = "lazy" B = 2 MaxLen = 5
INVARIANTS Concatenation Injective
CHECK_DEADLOCK FALSE
