SPECIFICATION Spec
INVARIANTS Same Bound Fresh
CHECK_DEADLOCK FALSE
CONSTANTS
 Regs = 3
 Coefs = 8
 Claims = 5
 Layers = 5
 Schedule = "good"
