SPECIFICATION Spec
INVARIANTS Complete Exact Degrees Gap
CHECK_DEADLOCK FALSE
CONSTANTS
 P = 17
 Init0 = 2
 LdeF = 4
 OutD = 1
 Errs = {5}
 Chs = {0, 3}
