------------------------------ MODULE MCMerkle ------------------------------
(***************************************************************************)
(* An adversary presents any opening built from any hash it can know       *)
(* (hashes of the committed tree, of other values, foreign digests) with   *)
(* any index and any path length: only honest openings verify. Hashes are  *)
(* free terms.                                                             *)
(***************************************************************************)
EXTENDS Merkle, FiniteSets
CONSTANTS N, Values, MaxPath, CheckRange

LeafH(v) == "L" \o ToString(v)
NodeH(a, b) == "(" \o a \o "." \o b \o ")"
Vectors == [1..N -> Values]

VARIABLES leaves, claim
vars == << leaves, claim >>
LevelsOf(ls) == Levels(TLCEval([i \in 1..N |-> LeafH(ls[i])]), NodeH)
TermsOf(ls) == LET lv == LevelsOf(ls) IN UNION {{lv[l][i] : i \in 1..Len(lv[l])} : l \in 1..Len(lv)}
Foreign == {"X"} \cup {LeafH(v) : v \in Values}

Init == leaves \in Vectors /\ claim = [kind |-> "none"]
Present == /\ claim.kind = "none"
           /\ \E v \in Values, i \in 0..(4 * N - 1), k \in 0..MaxPath :
                \E path \in [1..k -> TermsOf(leaves) \cup Foreign] :
                   claim' = [kind |-> "opening", v |-> v, i |-> i, path |-> path]
           /\ UNCHANGED leaves
Next == Present
Spec == Init /\ [][Next]_vars

Verdict == LET lv == LevelsOf(leaves) c == Climb(LeafH(claim.v), claim.i, claim.path, NodeH) IN
  c[1] = RootOf(lv) /\ (CheckRange => c[2] = 0)
Honest == /\ claim.i < N /\ claim.v = leaves[claim.i + 1]
          /\ claim.path = PathOf(LevelsOf(leaves), claim.i)
Binding == claim.kind = "opening" => (Verdict <=> Honest)
=============================================================================
