SPECIFICATION Spec
INVARIANTS InRange OffDomain Odd AllReached
CHECK_DEADLOCK FALSE
CONSTANTS
 Sizes = {2, 4, 8, 16, 32, 64, 128}
 Factors = {2, 4, 8, 16}
