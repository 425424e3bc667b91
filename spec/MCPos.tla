-------------------------------- MODULE MCPos --------------------------------
(***************************************************************************)
(* From challenge values to query positions: every value gives an          *)
(* admissible position, every admissible position is given by some value,  *)
(* and a queried pair never touches the original domain or the half-size   *)
(* subgroup in any layer of the low-degree test.                           *)
(***************************************************************************)
EXTENDS Stark
CONSTANTS Sizes, Factors
VARIABLES size, lde, pos, layer
vars == << size, lde, pos, layer >>
Init == size \in Sizes /\ lde \in Factors /\ lde <= size /\ pos = -1 /\ layer = 0
Draw == pos = -1 /\ (\E v \in 0..(3 * size) : pos' = Position(v, size, lde)) /\ layer' = 1 /\ UNCHANGED << size, lde >>
Size(k) == size \div (2 ^ (k - 1))
Descend == pos # -1 /\ Size(layer) > 2 /\ pos' = pos % (Size(layer) \div 2) /\ layer' = layer + 1 /\ UNCHANGED << size, lde >>
Next == Draw \/ Descend
Spec == Init /\ [][Next]_vars
InRange == pos # -1 => pos \in 0..(Size(layer) - 1)
OffDomain == layer = 1 => pos % lde # 0
Odd == (pos # -1 /\ Size(layer) >= 2) => pos % 2 = 1
AllReached == pos = -1 => {Position(v, size, lde) : v \in 0..(size - 1)} = {i \in 0..(size - 1) : i % 2 = 1 /\ i % lde # 0}
=============================================================================
