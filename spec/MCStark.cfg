SPECIFICATION Spec
INVARIANTS Game
CHECK_DEADLOCK FALSE
CONSTANTS
 P = 97
 Names = {"square"}
 Spread = {3, 9}
 Zs = {5, 60}
 LdeF = 4
 OutD = 2
