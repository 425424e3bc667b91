SPECIFICATION Spec
CONSTANTS Design = "kept" Callers = {1} Args = {1, 2} MaxCalls = 2
INVARIANT Function
CHECK_DEADLOCK FALSE
