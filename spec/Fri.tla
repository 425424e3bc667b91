--------------------------------- MODULE Fri ---------------------------------
(***************************************************************************)
(* The low-degree test: folding of a layer of values, the prover's layers  *)
(* and final coefficients, and the verifier's decision on an opened proof. *)
(* A recorded proof f is [roots, q, coefs, init, out, lde]; an opening is  *)
(* [i, v, t] with t the ids of the trees of which it is the true opening.  *)
(* ch[r] is the challenge made from the root with id r.                    *)
(***************************************************************************)
EXTENDS Poly

\* even + challenge * odd, on values over the powers of w (n = Len(l) of them)
Fold(p, l, w, ch) ==
  LET n == Len(l) h == n \div 2
      wi == TLCEval(Powers(p, FInv(p, w), h))
      hi == FInv(p, 2 % p)
  IN TLCEval([i \in 1..h |->
        LET e == (l[i] + l[i + h]) % p
            o == (((l[i] - l[i + h]) % p) * wi[i]) % p
        IN (((e + (o * ch)) % p) * hi) % p])
\* the same on coefficients: even[i] + ch * odd[i]
FoldCoefs(p, a, ch) == TLCEval([i \in 1..CeilDiv(Len(a), 2) |-> (PCoef(a, 2 * i - 2) + ch * PCoef(a, 2 * i - 1)) % p])

Steps(init, out) == Log2(init \div out)

\* the layers of an honest prover, given the challenge of every layer
RECURSIVE Layers(_, _, _)
Layers(p, l, chs) ==
  IF chs = <<>> THEN << l >>
  ELSE << l >> \o Layers(p, TLCEval(Fold(p, l, Omega(p, Len(l)), chs[1])), Tail(chs))

ShapeOk(f) ==
  /\ IsPow2(f.init) /\ IsPow2(f.out) /\ IsPow2(f.lde) /\ f.out <= f.init
  /\ Len(f.roots) = Steps(f.init, f.out) + 1
  /\ Len(f.q) = 2 * Len(f.roots)
  /\ Len(f.coefs) = f.out
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
Opens(q, r) == InSeq(r, q.t)

\* round k with the position i in a layer of `size` values; val is what the layer must hold there
RECURSIVE Rounds(_, _, _, _, _, _, _)
Rounds(p, f, ch, k, i, size, val) ==
  LET half == size \div 2
      a == i % half
      q1 == f.q[2 * k - 1]
      q2 == f.q[2 * k]
      w == Omega(p, size)
      here == IF i = a THEN q1.v ELSE q2.v
  IN /\ size >= 2
     /\ q1.i = a /\ q2.i = a + half
     /\ Opens(q1, f.roots[k]) /\ Opens(q2, f.roots[k])
     /\ here = val
     /\ IF k = Len(f.roots)
        THEN /\ q1.v = PEval(p, f.coefs, FPow(p, w, a))
             /\ q2.v = PEval(p, f.coefs, FPow(p, w, a + half))
        ELSE LET e == (q1.v + q2.v) % p
                 o == (((q1.v - q2.v) % p) * FPow(p, FInv(p, w), a)) % p
                 nx == (((e + (o * ch[f.roots[k]])) % p) * FInv(p, 2 % p)) % p
             IN Rounds(p, f, ch, k + 1, a, half, nx)

FriAccepts(p, f, ch, i, val) ==
  /\ ShapeOk(f)
  /\ f.init * f.lde >= 2 /\ f.init * f.lde <= 2 ^ FS(p)
  /\ i < f.init * f.lde
  /\ i % 2 = 1                                       \* never on the half-size subgroup
  /\ Rounds(p, f, ch, 1, i, f.init * f.lde, val)
=============================================================================
