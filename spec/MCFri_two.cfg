SPECIFICATION Spec
INVARIANTS Complete Exact Degrees Gap
CHECK_DEADLOCK FALSE
CONSTANTS
 P = 17
 Init0 = 4
 LdeF = 2
 OutD = 1
 Errs = {1}
 Chs = {0, 3, 16}
