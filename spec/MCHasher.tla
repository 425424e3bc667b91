------------------------------ MODULE MCHasher ------------------------------
(***************************************************************************)
(* An incremental hasher with a block buffer. Pieces of any length are     *)
(* absorbed, a digest is taken after any of them, then it may start anew.  *)
(* Compression is a free term. Checked: the digest is a function of the    *)
(* concatenation alone, and an injective one.                              *)
(*  lazy   a full block is compressed when more input arrives (Blake2s)    *)
(*  eager  a full block is compressed at once (SHA-256)                    *)
(*  tail   pieces of a block and more are taken block by block, the rest   *)
(*         of the piece is lost                                            *)
(*  nolen  the last block is padded but the length is not hashed           *)
(*  kept   starting anew leaves the buffer as it is                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Design, B, MaxLen
Bytes == {0, 1}
Pieces == UNION {[1..n -> Bytes] : n \in 0..(B + 1)}
VARIABLES chain, buf, len, str, seen
vars == << chain, buf, len, str, seen >>
Init == chain = <<>> /\ buf = <<>> /\ len = 0 /\ str = <<>> /\ seen = {}
Cut(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
RECURSIVE Take(_, _, _)
\* the buffer is filled up; whether a full one is compressed depends on what is left
Take(c, b, s) ==
  LET room == B - Len(b) nb == b \o Cut(s, room) rest == Drop(s, room) IN
  IF Len(nb) < B THEN << c, nb >>
  ELSE IF rest = <<>> /\ Design # "eager" THEN << c, nb >>
  ELSE Take(Append(c, nb), <<>>, rest)
Eat(s) == LET whole == Len(s) - (Len(s) % B) IN
          IF Design = "tail" /\ Len(s) > B THEN Take(chain, buf, Cut(s, whole)) ELSE Take(chain, buf, s)
Update == \E s \in Pieces :
  /\ Len(str) + Len(s) <= MaxLen
  /\ LET r == Eat(s) IN chain' = r[1] /\ buf' = r[2]
  /\ len' = len + Len(s) /\ str' = str \o s /\ UNCHANGED seen
Pad(b) == [i \in 1..B |-> IF i <= Len(b) THEN b[i] ELSE 0]
Digest == IF Design = "nolen" THEN << Append(chain, Pad(buf)) >> ELSE << Append(chain, Pad(buf)), len >>
\* a digest is taken, and the hasher starts anew
Finish == /\ seen' = seen \cup {<< str, Digest >>} /\ Cardinality(seen) < 2
          /\ chain' = <<>> /\ buf' = (IF Design = "kept" THEN buf ELSE <<>>) /\ len' = 0 /\ str' = <<>>
Next == Update \/ Finish
Spec == Init /\ [][Next]_vars
\* the same string in one piece, hashed by the definition
RECURSIVE Blocks(_)
Blocks(s) == IF Len(s) < B \/ (Len(s) = B /\ Design # "eager") THEN << s >> ELSE << Cut(s, B) >> \o Blocks(Drop(s, B))
Canon(s) == LET b == Blocks(s) h == [b EXCEPT ![Len(b)] = Pad(@)] IN IF Design = "nolen" THEN << h >> ELSE << h, Len(s) >>
Concatenation == \A x \in seen : x[2] = Canon(x[1])
Injective == \A x, y \in seen : x[2] = y[2] => x[1] = y[1]
=============================================================================
