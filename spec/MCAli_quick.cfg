SPECIFICATION Spec
INVARIANTS Interp Quotient Detected
CHECK_DEADLOCK FALSE
CONSTANTS
 P = 97
 Names = {"square", "three", "late"}
 Spread = {0, 1, 3}
 Upto = 40
