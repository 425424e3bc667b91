SPECIFICATION Spec
INVARIANTS Game
CHECK_DEADLOCK FALSE
CONSTANTS
 P = 97
 Names = {"square", "pair", "three"}
 Spread = {0, 3, 9}
 Zs = {2, 5, 60}
 LdeF = 4
 OutD = 2
