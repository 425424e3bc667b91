SPECIFICATION Spec
INVARIANTS Same Bound Fresh
CHECK_DEADLOCK FALSE
CONSTANTS
 Regs = 2
 Coefs = 4
 Claims = 3
 Layers = 3
 Schedule = "no_inner_roots"
