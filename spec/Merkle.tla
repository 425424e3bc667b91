------------------------------- MODULE Merkle -------------------------------
(***************************************************************************)
(* Commitments. The hash is a parameter: the model checker instantiates it *)
(* with free terms (no collisions), the trace specification with the table *)
(* of hashes recorded from the real code.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Depth(n) == CHOOSE d \in 0..30 : 2 ^ d = n
\* all levels of the balanced tree over the leaf hashes, leaves first
Levels(hs, Node(_, _)) ==
  FoldLeft(LAMBDA acc, d : LET l == acc[Len(acc)] IN
             Append(acc, TLCEval([i \in 1..(Len(l) \div 2) |-> Node(l[2 * i - 1], l[2 * i])])),
           << hs >>, [d \in 1..Depth(Len(hs)) |-> d])
RootOf(levels) == levels[Len(levels)][1]
RECURSIVE PathFrom(_, _, _)
\* siblings of position i (from 0), bottom up
PathFrom(levels, l, i) ==
  IF l = Len(levels) THEN <<>>
  ELSE << levels[l][(IF i % 2 = 0 THEN i + 1 ELSE i - 1) + 1] >> \o PathFrom(levels, l + 1, i \div 2)
PathOf(levels, i) == PathFrom(levels, 1, i)

\* what the verifier recomputes: <<hash reached, index left over>>
Climb(h, idx, path, Node(_, _)) ==
  FoldLeft(LAMBDA acc, el : << IF acc[2] % 2 = 0 THEN Node(acc[1], el) ELSE Node(el, acc[1]), acc[2] \div 2 >>, << h, idx >>, path)
Verifies(root, h, idx, path, Node(_, _)) ==
  LET r == Climb(h, idx, path, Node) IN r[2] = 0 /\ r[1] = root
=============================================================================
