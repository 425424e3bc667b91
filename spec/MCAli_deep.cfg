SPECIFICATION Spec
INVARIANTS Interp Quotient Detected
CHECK_DEADLOCK FALSE
CONSTANTS
 P = 97
 Names = {"square", "pair", "cube", "three", "late", "chain"}
 Spread = {0, 1, 2, 3, 9, 96}
 Upto = 96
