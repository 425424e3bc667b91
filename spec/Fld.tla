--------------------------------- MODULE Fld ---------------------------------
(***************************************************************************)
(* Prime fields whose products fit TLC's integers, and their subgroups of  *)
(* two-power order. Elements are 0..p-1.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

FAdd(p, a, b) == (a + b) % p
FSub(p, a, b) == (a - b) % p        \* TLA+ modulus is never negative
FMul(p, a, b) == (a * b) % p
FNeg(p, a)    == (0 - a) % p

RECURSIVE FPow(_, _, _)
FPow(p, a, e) ==
  IF e = 0 THEN 1 % p
  ELSE LET h == FPow(p, a, e \div 2)
           s == (h * h) % p
       IN IF e % 2 = 1 THEN (s * a) % p ELSE s

FInv(p, a) == FPow(p, a, p - 2)     \* only meaningful for a # 0
FDiv(p, a, b) == (a * FInv(p, b)) % p

\* a generator of the multiplicative group, as the field types of the harness declare it
FGen(p) == CASE p = 5 -> 2 [] p = 17 -> 3 [] p = 97 -> 5 [] p = 193 -> 5
             [] p = 257 -> 3 [] p = 12289 -> 11 [] p = 40961 -> 3

RECURSIVE TwoAdicity(_)
TwoAdicity(n) == IF n % 2 = 1 THEN 0 ELSE 1 + TwoAdicity(n \div 2)
FS(p) == TwoAdicity(p - 1)

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
IsPow2(n) == n >= 1 /\ n = 2 ^ Log2(n)
NextPow2(n) == IF IsPow2(n) THEN n ELSE 2 ^ (Log2(n) + 1)

\* the generator of the subgroup of order n = 2^k, k <= FS(p)
Omega(p, n) == FPow(p, FGen(p), (p - 1) \div n)

HasOrder(p, w, n) == FPow(p, w, n) = 1 /\ (n = 1 \/ FPow(p, w, n \div 2) # 1)   \* n a power of two

Bit(n, i) == (n \div (2 ^ i)) % 2
RECURSIVE RevBits(_, _)
RevBits(n, k) == IF k = 0 THEN 0 ELSE (n % 2) * 2 ^ (k - 1) + RevBits(n \div 2, k - 1)

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
SumSeqP(p, s) == FoldLeft(LAMBDA acc, x: (acc + x) % p, 0, s)
ProdSeqP(p, s) == FoldLeft(LAMBDA acc, x: (acc * x) % p, 1, s)

\* <<1, x, x^2, ..., x^(n-1)>> times c
RECURSIVE PowersUpTo(_, _, _, _)
PowersUpTo(p, c, x, n) ==
  IF n = 0 THEN <<>>
  ELSE IF n = 1 THEN << c >>
  ELSE LET h == TLCEval(PowersUpTo(p, c, x, n \div 2))
           f == FPow(p, x, n \div 2)
           t == TLCEval([i \in 1..Len(h) |-> (h[i] * f) % p])
           r == h \o t
       IN IF n % 2 = 0 THEN r ELSE Append(r, (c * FPow(p, x, n - 1)) % p)
Powers(p, x, n) == TLCEval(PowersUpTo(p, 1, x, n))
=============================================================================
