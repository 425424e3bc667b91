SPECIFICATION Spec
CONSTANTS Design = "reset" Callers = {1, 2} Args = {1, 2} MaxCalls = 2
INVARIANT Function
CHECK_DEADLOCK FALSE
