--------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* Transforms and extensions of sparse vectors over a field with large     *)
(* two-power subgroups (786433 = 3 * 2^18 + 1). Products are formed in     *)
(* two halves to stay within TLC's integers. A sparse vector has a value   *)
(* for every output by definition in a few products, so whole transforms   *)
(* of the sizes real traces have are decided, output by output.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

BigP == 786433
BigGen == 10
BigS == 18
\* a * b mod m for m <= 2^20
MulM(m, a, b) == ((((a \div 1024) * b) % m) * 1024 + (a % 1024) * b) % m
RECURSIVE PowM(_, _, _)
PowM(m, a, e) == IF e = 0 THEN 1 ELSE LET h == PowM(m, a, e \div 2) s == MulM(m, h, h) IN IF e % 2 = 1 THEN MulM(m, s, a) ELSE s
BInv(a) == PowM(BigP, a, BigP - 2)
BOmega(n) == PowM(BigP, BigGen, (BigP - 1) \div n)
RECURSIVE PowersM(_, _)
PowersM(x, n) ==                     \* n a power of two
  IF n = 1 THEN << 1 >>
  ELSE LET h == TLCEval(PowersM(x, n \div 2)) f == PowM(BigP, x, n \div 2)
       IN h \o TLCEval([i \in 1..Len(h) |-> MulM(BigP, h[i], f)])

\* entries: sequence of <<position from 0, value>>; W: powers of the generator of order N; the value of the polynomial at s * w^e
At(entries, W, N, s, e) ==
  FoldLeft(LAMBDA acc, t : (acc + MulM(BigP, t[3], W[MulM(N, t[1], e) + 1])) % BigP, 0, entries)
\* entries with the powers of the shift put in
Shifted(entries, s) == TLCEval([i \in 1..Len(entries) |-> << entries[i][1], entries[i][2], MulM(BigP, entries[i][2], PowM(BigP, s, entries[i][1])) >>])
=============================================================================
