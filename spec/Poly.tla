-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Polynomials as coefficient sequences (lowest first) and as vectors of   *)
(* values over the powers of a generator. These are the definitions; the   *)
(* fast transform is shown equal to the definition in MCNum.               *)
(***************************************************************************)
EXTENDS Fld

PEval(p, c, x) == FoldRight(LAMBDA ci, acc: (ci + acc * x) % p, c, 0)

PTrim(c) == LET nz == {i \in 1..Len(c) : c[i] # 0} IN IF nz = {} THEN <<>> ELSE SubSeq(c, 1, Max(nz))
PDeg(c) == Len(PTrim(c)) - 1                                  \* -1 for the zero polynomial
PPad(c, n) == IF Len(c) >= n THEN c ELSE c \o [i \in 1..(n - Len(c)) |-> 0]
PCoef(c, i) == IF i < Len(c) THEN c[i + 1] ELSE 0             \* i from 0
PEq(a, b) == PTrim(a) = PTrim(b)

PAdd(p, a, b) == TLCEval([i \in 1..Max2(Len(a), Len(b)) |-> (PCoef(a, i - 1) + PCoef(b, i - 1)) % p])
PScale(p, a, c) == TLCEval([i \in 1..Len(a) |-> (a[i] * c) % p])
PMulLin(p, a, r) ==                                           \* a * (x - r)
  TLCEval([i \in 1..(Len(a) + 1) |-> ((IF i >= 2 THEN PCoef(a, i - 2) ELSE 0) + FNeg(p, r) * PCoef(a, i - 1)) % p])
PMul(p, a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE TLCEval([k \in 1..(Len(a) + Len(b) - 1) |->
         FoldLeft(LAMBDA acc, i: (acc + a[i] * b[k + 1 - i]) % p, 0,
                  [j \in 1..(Min2(k, Len(a)) - Max2(1, k + 1 - Len(b)) + 1) |-> Max2(1, k + 1 - Len(b)) + j - 1])])
PFromRoots(p, rs) == FoldLeft(LAMBDA acc, r: PMulLin(p, acc, r), <<1>>, rs)

\* the definition of the transform: value i is the polynomial at w^i
NaiveDft(p, a, w, n) == TLCEval([i \in 1..n |-> PEval(p, a, FPow(p, w, i - 1))])

\* even/odd recursion; pw holds the powers of the n-th generator, st the stride of this level
RECURSIVE DftR(_, _, _, _)
DftR(p, a, pw, st) ==
  LET n == Len(a) IN
  IF n = 1 THEN a
  ELSE LET h == n \div 2
           e == TLCEval(DftR(p, TLCEval([i \in 1..h |-> a[2 * i - 1]]), pw, 2 * st))
           o == TLCEval(DftR(p, TLCEval([i \in 1..h |-> a[2 * i]]), pw, 2 * st))
       IN TLCEval([i \in 1..n |->
            IF i <= h THEN (e[i] + pw[(i - 1) * st + 1] * o[i]) % p
            ELSE (e[i - h] + pw[(i - 1) * st + 1] * o[i - h]) % p])
Dft(p, a, w) == DftR(p, a, Powers(p, w, Len(a)), 1)
IDft(p, a, w) == LET ni == FInv(p, Len(a) % p) IN PScale(p, Dft(p, a, FInv(p, w)), ni)
CosetDft(p, a, w, s) == LET ps == Powers(p, s, Len(a)) IN Dft(p, TLCEval([i \in 1..Len(a) |-> (a[i] * ps[i]) % p]), w)
CosetIDft(p, v, w, s) == LET c == IDft(p, v, w) ps == Powers(p, FInv(p, s), Len(v)) IN TLCEval([i \in 1..Len(v) |-> (c[i] * ps[i]) % p])

\* evaluations of a coefficient vector over the domain of size n*f (and its shift)
Lde(p, a, f) == Dft(p, PPad(a, Len(a) * f), Omega(p, Len(a) * f))
CosetLde(p, a, f, s) == CosetDft(p, PPad(a, Len(a) * f), Omega(p, Len(a) * f), s)

\* the polynomial of degree < n through the points (xs[i], ys[i]), checked instead of computed
InterpolatesExactly(p, c, xs, ys) == /\ Len(c) <= Len(xs)
                                     /\ \A i \in 1..Len(xs) : PEval(p, c, xs[i]) = ys[i]
=============================================================================
