SPECIFICATION Spec
CONSTANTS P = 5 EAGER = FALSE STALE = FALSE Start = {1, 2}
INVARIANTS SameVector Coherent
PROPERTIES RefusedLeavesAlone
CHECK_DEADLOCK FALSE
