SPECIFICATION Spec
CONSTANTS Design = "fresh" Callers = {1, 2, 3} Args = {1, 2} MaxCalls = 6
INVARIANT Function
CHECK_DEADLOCK FALSE
