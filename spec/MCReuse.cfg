SPECIFICATION Spec
CONSTANTS Design = "fresh" Callers = {1, 2} Args = {1, 2} MaxCalls = 4
INVARIANT Function
CHECK_DEADLOCK FALSE
