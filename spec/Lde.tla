--------------------------------- MODULE Lde ---------------------------------
(***************************************************************************)
(* Low-degree extension as the library's default algorithm computes it:    *)
(* one transform per coset, the cosets handed out to worker chunks.        *)
(* LdeAsCoded is that algorithm, with the shift each coset really gets;    *)
(* Lde in module Poly is what an extension has to be. They differ exactly  *)
(* in the configurations described by LdeDefect (recorded as a known       *)
(* finding, see DESIGN.md, D1).                                            *)
(***************************************************************************)
EXTENDS Poly

\* how the worker cuts `n` elements into contiguous chunks
ChunkSize(n, cpus) == IF n < cpus THEN 1 ELSE n \div cpus
NumTasks(n, cpus) == IF n < cpus THEN n ELSE CeilDiv(n, ChunkSize(n, cpus))

LdeDefect(f, cpus) == cpus > 1 /\ f > 1 /\ ChunkSize(f, cpus) > 1

\* coset k = i * chunk + t is evaluated at shift omega^(i+t) instead of omega^(i*chunk+t)
CodedShift(f, cpus, k) == LET ch == ChunkSize(f, cpus) IN (k \div ch) + (k % ch)
LdeAsCoded(p, a, f, cpus, s) ==
  LET n == Len(a)
      w == Omega(p, n * f)
      cos == TLCEval([k \in 1..f |-> CosetDft(p, a, Omega(p, n), (s * FPow(p, w, CodedShift(f, cpus, k - 1))) % p)])
  IN TLCEval([j \in 1..(n * f) |-> cos[((j - 1) % f) + 1][((j - 1) \div f) + 1]])
\* what the default extension must return / is known to return
LdeOk(p, a, f, cpus, s, out) ==
  IF out = CosetLde(p, a, f, s) THEN "ok"
  ELSE IF LdeDefect(f, cpus) /\ out = LdeAsCoded(p, a, f, cpus, s) THEN "known D1"
  ELSE "bad values of the extension"
=============================================================================
