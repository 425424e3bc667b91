------------------------------ MODULE TraceNum ------------------------------
(***************************************************************************)
(* Recorded transforms, extensions, polynomial operations, domains and     *)
(* constructions (C11 - C14) against their definitions.                    *)
(***************************************************************************)
EXTENDS Lde, Big, Cases

Refused(c) == c.res = "err"
Crashed(c) == c.res \in {"panic", "hang", "crash", "setup"}
Req(b, msg) == IF b THEN "ok" ELSE "bad " \o msg

-----------------------------------------------------------------------------
FftVerdict(c) ==
  LET p == c.p a == c.a n == Len(a) k == c.k
      inv == Get(c, "inv", FALSE)
      w0 == Omega(p, n)
      w == IF inv THEN FInv(p, w0) ELSE w0
      g == FGen(p)
      exp == CASE c.var \in {"best", "besthint", "serial", "parallel", "radix4", "sradix4", "dit", "sdit"} -> Dft(p, a, w)
               [] c.var = "pfft" -> Dft(p, a, w0)
               [] c.var = "pcoset" -> CosetDft(p, a, w0, g)
               [] c.var = "pcosetgen" -> CosetDft(p, a, w0, c.gen)
               [] c.var = "pifft" -> IDft(p, a, w0)
               [] c.var = "picoset" -> CosetIDft(p, a, w0, g)
               [] c.var = "picosetgen" -> CosetIDft(p, a, w0, c.gen)
  IN Req(n = 2 ^ k /\ c.out = exp, "transform " \o c.var)

LdeVerdict(c) ==
  LET p == c.p a == c.a f == c.factor
      coset == c.var \in {"clde", "ccosets", "cnaive", "cfilter"}
      s == IF coset THEN FGen(p) ELSE 1
  IN IF c.var \in {"lde", "cosets", "clde", "ccosets"} THEN LdeOk(p, a, f, c.cpus, s, c.out)
     ELSE Req(c.out = CosetLde(p, a, f, s), "extension " \o c.var)

-----------------------------------------------------------------------------
ZipW(a, b, Op(_, _)) == TLCEval([i \in 1..Len(a) |-> Op(a[i], b[i])])
Map1(a, Op(_)) == TLCEval([i \in 1..Len(a) |-> Op(a[i])])
PopVerdict(c) ==
  LET p == c.p a == c.a
      b == PPad(c.b, Len(a)) k == c.c e == c.e
      lin(x) == (a[1] + a[2] * x) % p
      exp == CASE c.what \in {"add", "cadd"} -> ZipW(a, b, LAMBDA x, y : (x + y) % p)
               [] c.what \in {"sub", "csub"} -> ZipW(a, b, LAMBDA x, y : (x - y) % p)
               [] c.what = "mul" -> ZipW(a, b, LAMBDA x, y : (x * y) % p)
               [] c.what \in {"adds", "cadds", "umuladd"} -> ZipW(a, b, LAMBDA x, y : (x + y * k) % p)
               [] c.what = "addc" -> Map1(a, LAMBDA x : (x + k) % p)
               [] c.what \in {"scale", "uscale"} -> Map1(a, LAMBDA x : (x * k) % p)
               [] c.what = "neg" -> Map1(a, LAMBDA x : (0 - x) % p)
               [] c.what = "pow" -> Map1(a, LAMBDA x : FPow(p, x, e))
               [] c.what = "sqr" -> Map1(a, LAMBDA x : (x * x) % p)
               [] c.what = "dist" -> LET ps == Powers(p, k, Len(a)) IN ZipW(a, ps, LAMBDA x, y : (x * y) % p)
               [] c.what = "eval" -> << PEval(p, a, k) >>
               [] c.what = "deg1" -> LET ps == Powers(p, Omega(p, c.size), c.size) IN Map1(ps, lin)
               [] c.what = "cdeg1" -> LET ps == Powers(p, Omega(p, c.size), c.size) IN Map1(ps, LAMBDA x : lin((x * FGen(p)) % p))
  IN Req(c.out = exp, "operation " \o c.what)

BatchInvVerdict(c) ==
  LET p == c.p z == \E i \in 1..Len(c.a) : c.a[i] = 0 IN
  IF z THEN Req(Refused(c) /\ c.out = c.a, "batch inversion of a vector with a zero")
  ELSE Req(c.res = "ok" /\ Len(c.out) = Len(c.a) /\ \A i \in 1..Len(c.a) : (c.a[i] * c.out[i]) % p = 1, "batch inversion")

PrecompVerdict(c) ==
  LET p == c.p n == c.n w == Omega(p, n) IN
  Req(/\ c.omegas = Powers(p, w, n)
      /\ c.coset = TLCEval([i \in 1..n |-> (FGen(p) * c.omegas[i]) % p])
      /\ c.inv = Powers(p, FInv(p, w), n \div 2), "domain precomputation")

ChunkVerdict(c) ==
  Req(/\ c.chunk >= 1 /\ c.counted * c.chunk >= c.n /\ (c.n > 0 => (c.counted - 1) * c.chunk < c.n)
      /\ c.counted <= c.tasks, "worker chunks")

-----------------------------------------------------------------------------
\* size requested: 2^lg + off
DomVerdict(c) ==
  LET want == IF c.off > 0 THEN c.lg + 1 ELSE c.lg
      s == IF c.p = 0 THEN 32 ELSE FS(c.p)     \* p = 0: the 64-bit field of the harness, two-adicity 32
  IN IF want > s THEN Req(Refused(c), "domain larger than the field allows")
     ELSE Req(/\ c.res = "ok" /\ c.dpow = want
              /\ (want < 30 => c.dsize = 2 ^ want)
              /\ c.o1 /\ (want > 0 => ~c.o2)
              /\ (c.p # 0 => HasOrder(c.p, c.gen, 2 ^ want)), "domain")

DomIdxVerdict(c) ==
  LET n == c.size h == n \div 2 IN
  Req(\A i \in 0..(n - 1) :
        /\ c.nexts[i + 1] = i % h /\ c.nsizes[i + 1] = h            \* squaring sends g^i to (g^2)^(i mod h)
        /\ {c.cosets[i + 1][j] : j \in 1..Len(c.cosets[i + 1])} = {i, (i + h) % n}
        /\ c.cosets[i + 1] = << i % h, (i % h) + h >>
        /\ {c.comb[i + 1][j] : j \in 1..Len(c.comb[i + 1])} = {i, (i + h) % n}, "index mapping")

\* product over the worker's chunks of roots, each extended to the result size
RECURSIVE RootChunks(_, _)
RootChunks(rs, ch) == IF Len(rs) <= ch THEN << rs >> ELSE << SubSeq(rs, 1, ch) >> \o RootChunks(SubSeq(rs, ch + 1, Len(rs)), ch)
FromRootsAsCoded(p, rs, cpus) ==
  LET n == NextPow2(Len(rs) + 1)
      parts == RootChunks(rs, ChunkSize(Len(rs), cpus))
      ext(r) == LET c0 == PFromRoots(p, r) c == PPad(c0, NextPow2(Len(c0))) IN LdeAsCoded(p, c, n \div Len(c), cpus, 1)
      prod == FoldLeft(LAMBDA acc, r : LET v == ext(r) IN TLCEval([i \in 1..n |-> (acc[i] * v[i]) % p]), [i \in 1..n |-> 1], parts)
  IN IDft(p, prod, Omega(p, n))
RootsDefect(rs, cpus) ==
  LET n == NextPow2(Len(rs) + 1) parts == RootChunks(rs, ChunkSize(Len(rs), cpus))
  IN \E i \in 1..Len(parts) : LdeDefect(n \div NextPow2(Len(parts[i]) + 1), cpus)
RootsVerdict(c) ==
  LET p == c.p want == PFromRoots(p, c.a) IN
  IF NextPow2(Len(c.a) + 1) > 2 ^ FS(p) THEN Req(Refused(c), "roots beyond the largest domain")
  ELSE IF c.res # "ok" THEN "bad from_roots refused"
  ELSE IF PEq(c.out, want) /\ Len(c.out) = NextPow2(Len(c.a) + 1) THEN "ok"
  ELSE IF RootsDefect(c.a, c.cpus) /\ c.out = FromRootsAsCoded(p, c.a, c.cpus) THEN "known D1"
  ELSE "bad polynomial from roots"

InterpVerdict(c) == Req(c.res = "ok" /\ InterpolatesExactly(c.p, c.out, c.a, c.b), "interpolation")

ShapeVerdict(c) ==
  LET p == c.p
      zeroes == c.what \in {"newc", "newv"}
      base == IF zeroes THEN [i \in 1..NextPow2(c.n) |-> 0] ELSE PPad(c.a, NextPow2(Len(c.a)))
      n == Len(base)
      arg == Get(c, "arg", 0)
      refuse == \/ NextPow2(c.n) > 2 ^ FS(p)
                \/ c.what = "padf" /\ arg > 1 /\ (~IsPow2(arg) \/ n * arg > 2 ^ FS(p))
                \/ c.what = "pads" /\ (arg < n \/ ~IsPow2(arg) \/ arg > 2 ^ FS(p))
      exp == CASE c.what \in {"new", "newc", "newv", "vals"} -> base
               [] c.what = "padf" -> PPad(base, n * arg)
               [] c.what = "pads" -> PPad(base, arg)
               [] c.what = "trim" -> TLCEval([i \in 1..n |-> IF i <= arg + 1 THEN base[i] ELSE 0])
  IN IF refuse THEN Req(Refused(c), "resizing that cannot be done")
     ELSE Req(/\ c.res = "ok" /\ c.out = exp
              /\ c.vals = (IF c.what \in {"newv", "vals"} THEN IDft(p, exp, Omega(p, Len(exp))) ELSE Dft(p, exp, Omega(p, Len(exp))))
              /\ c.back = exp
              /\ c.vv = (IF c.what = "newv" THEN base ELSE PPad(c.a, NextPow2(Len(c.a)))), "shape " \o c.what)

PowSumVerdict(c) ==
  LET p == c.p IN Req(c.out = << (c.first * PEval(p, c.a, c.base)) % p >>, "weighted sum")

-----------------------------------------------------------------------------
(* sizes of real traces: sparse inputs over the large field, every output by definition; dense ones element by element *)
BigFft(c) ==
  LET n == Len(c.out) inverse == c.var \in {"pifft", "picoset", "picosetgen"} \/ Get(c, "inv", FALSE)
      w == IF inverse THEN BInv(BOmega(n)) ELSE BOmega(n)
      W == PowersM(w, n)
      s == CASE c.var = "pcoset" -> BigGen [] c.var = "pcosetgen" -> c.gen [] OTHER -> 1
      es == Shifted(c.nz, s)
      minv == IF c.var \in {"pifft", "picoset", "picosetgen"} THEN BInv(n) ELSE 1
      back == CASE c.var = "picoset" -> BInv(BigGen) [] c.var = "picosetgen" -> BInv(c.gen) [] OTHER -> 1
      B == IF back = 1 THEN <<>> ELSE PowersM(back, n)
      Want(i) == LET x == MulM(BigP, At(es, W, n, s, i - 1), minv) IN IF back = 1 THEN x ELSE MulM(BigP, x, B[i])
  IN Req(n = 2 ^ c.k /\ c.n = n /\ \A i \in 1..n : c.out[i] = Want(i), "transform " \o c.var)
BigLde(c) ==
  LET f == c.factor N == Len(c.out) coset == c.var \in {"clde", "ccosets", "cnaive", "cfilter"}
      s == IF coset THEN BigGen ELSE 1
      W == PowersM(BOmega(N), N) es == Shifted(c.nz, s)
      coded(i) == CodedShift(f, c.cpus, i % f) + f * (i \div f)
  IN IF N # 2 ^ c.k * f THEN "bad size of the extension"
     ELSE IF \A i \in 1..N : c.out[i] = At(es, W, N, s, i - 1) THEN "ok"
     ELSE IF /\ c.var \in {"lde", "cosets", "clde", "ccosets"} /\ LdeDefect(f, c.cpus)
             /\ \A i \in 1..N : c.out[i] = At(es, W, N, s, coded(i - 1)) THEN "known D1"
     ELSE "bad extension " \o c.var
BigPop(c) ==
  LET a == c.a b == c.b k == c.c n == Len(a) p == BigP
      PS == IF c.what = "dist" THEN PowersM(k, n) ELSE IF c.what \in {"deg1", "cdeg1"} THEN PowersM(BOmega(c.size), c.size) ELSE <<>>
      s == IF c.what = "cdeg1" THEN MulM(p, a[2], BigGen) ELSE IF n >= 2 THEN a[2] ELSE 0
      Want(i) == CASE c.what \in {"add", "cadd"} -> (a[i] + b[i]) % p
                   [] c.what \in {"sub", "csub"} -> (a[i] - b[i]) % p
                   [] c.what = "mul" -> MulM(p, a[i], b[i])
                   [] c.what \in {"adds", "cadds", "umuladd"} -> (a[i] + MulM(p, b[i], k)) % p
                   [] c.what = "addc" -> (a[i] + k) % p
                   [] c.what \in {"scale", "uscale"} -> MulM(p, a[i], k)
                   [] c.what = "neg" -> (0 - a[i]) % p
                   [] c.what = "sqr" -> MulM(p, a[i], a[i])
                   [] c.what = "pow" -> PowM(p, a[i], c.e)
                   [] c.what = "dist" -> MulM(p, a[i], PS[i])
                   [] c.what = "eval" -> FoldRight(LAMBDA ci, acc : (ci + MulM(p, acc, k)) % p, a, 0)
                   [] c.what \in {"deg1", "cdeg1"} -> (a[1] + MulM(p, s, PS[i])) % p
  IN Req(Len(c.out) = (IF c.what = "eval" THEN 1 ELSE IF c.what \in {"deg1", "cdeg1"} THEN c.size ELSE n) /\ \A i \in 1..Len(c.out) : c.out[i] = Want(i),
         "operation " \o c.what)
BigBatchInv(c) == Req(c.res = "ok" /\ Len(c.out) = Len(c.a) /\ \A i \in 1..Len(c.a) : MulM(BigP, c.a[i], c.out[i]) = 1, "batch inversion")
BigPrecomp(c) ==
  LET n == c.n W == PowersM(BOmega(n), n) I == PowersM(BInv(BOmega(n)), n) IN
  Req(c.omegas = W /\ Len(c.coset) = n /\ (\A i \in 1..n : c.coset[i] = MulM(BigP, BigGen, W[i])) /\ c.inv = SubSeq(I, 1, n \div 2), "domain precomputation")
BigPowSum(c) == Req(c.out = << MulM(BigP, c.first, FoldRight(LAMBDA ci, acc : (ci + MulM(BigP, acc, c.base)) % BigP, c.a, 0)) >>, "weighted sum")
BigVerdict(c) == CASE c.op = "fft" -> BigFft(c) [] c.op = "lde" -> BigLde(c) [] c.op = "pop" -> BigPop(c) [] c.op = "batchinv" -> BigBatchInv(c)
                   [] c.op = "precomp" -> BigPrecomp(c) [] c.op = "powsum" -> BigPowSum(c)

-----------------------------------------------------------------------------
(* C25: one polynomial object through a history of operations. Each recorded step has to be the transition of the         *)
(* specification from the recorded state before it: form, vector and whether the operation was refused.                   *)
StepVerdict(p, form, v, s, cpus) ==
  LET n == Len(v) cap == 2 ^ FS(p) x == s.x k == s.k w == Omega(p, n)
      b == PPad(s.b, n)
      extends == s.o \in {"lde", "clde", "filt", "cfilt", "naive", "cnaive"}
      shift == IF s.o \in {"clde", "cfilt", "cnaive"} THEN FGen(p) ELSE 1
      refuse == \/ s.o = "padf" /\ x # 1 /\ (x = 0 \/ ~IsPow2(x) \/ n * x > cap)
                \/ s.o = "pads" /\ (x < n \/ ~IsPow2(x) \/ x > cap)
                \/ extends /\ n * x > cap
                \/ s.o = "binv" /\ \E i \in 1..n : v[i] = 0
      exp == CASE s.o = "padf" -> PPad(v, n * x)
               [] s.o = "pads" -> PPad(v, x)
               [] s.o = "trim" -> TLCEval([i \in 1..n |-> IF i <= x + 1 THEN v[i] ELSE 0])
               [] s.o = "scale" -> PScale(p, v, k)
               [] s.o = "neg" -> Map1(v, LAMBDA y : (0 - y) % p)
               [] s.o = "dist" -> LET ps == Powers(p, k, n) IN ZipW(v, ps, LAMBDA y, z : (y * z) % p)
               [] s.o = "fft" -> Dft(p, v, w)
               [] s.o = "cfft" -> CosetDft(p, v, w, FGen(p))
               [] s.o = "gfft" -> CosetDft(p, v, w, k)
               [] s.o = "ifft" -> IDft(p, v, w)
               [] s.o = "icfft" -> CosetIDft(p, v, w, FGen(p))
               [] s.o \in {"filt", "cfilt", "naive", "cnaive"} -> CosetLde(p, v, x, shift)
               [] s.o \in {"add", "hadd"} -> ZipW(v, b, LAMBDA y, z : (y + z) % p)
               [] s.o \in {"sub", "hsub"} -> ZipW(v, b, LAMBDA y, z : (y - z) % p)
               [] s.o \in {"adds", "hadds"} -> ZipW(v, b, LAMBDA y, z : (y + z * k) % p)
               [] s.o = "mul" -> ZipW(v, b, LAMBDA y, z : (y * z) % p)
               [] s.o = "addc" -> Map1(v, LAMBDA y : (y + k) % p)
               [] s.o = "pow" -> Map1(v, LAMBDA y : FPow(p, y, x))
               [] s.o = "sqr" -> Map1(v, LAMBDA y : (y * y) % p)
      form2 == IF s.o \in {"ifft", "icfft"} THEN "c" ELSE IF extends \/ s.o \in {"fft", "cfft", "gfft"} THEN "v" ELSE form
  IN IF refuse THEN Req(s.res = "err" /\ s.out = v /\ s.form = form, "refused operation " \o s.o \o " did not leave the object alone")
     ELSE IF s.res # "ok" \/ s.form # form2 THEN "bad operation " \o s.o \o " refused"
     ELSE IF s.o \in {"lde", "clde"} THEN LdeOk(p, v, x, cpus, shift, s.out)
     ELSE IF s.o = "binv" THEN Req(Len(s.out) = n /\ \A i \in 1..n : (v[i] * s.out[i]) % p = 1, "inversion")
     ELSE Req(s.out = exp, "operation " \o s.o)
Worse(a, b) == IF IsBad(a) THEN a ELSE IF IsBad(b) THEN b ELSE IF a # "ok" THEN a ELSE b
RECURSIVE ChainFrom(_, _, _, _, _)
ChainFrom(c, form, v, i, acc) ==
  IF i > Len(c.steps) \/ IsBad(acc) THEN acc
  ELSE ChainFrom(c, c.steps[i].form, c.steps[i].out, i + 1, Worse(acc, StepVerdict(c.p, form, v, c.steps[i], c.cpus)))
ChainVerdict(c) == IF c.res # "ok" THEN "bad " \o c.res ELSE ChainFrom(c, c.form0, c.a, 1, "ok")

Verdict(c) ==
  IF c.res = "absent" THEN "skip absent"
  ELSE IF Crashed(c) THEN "bad " \o c.res
  ELSE IF c.op \in {"fft", "lde", "pop", "precomp", "chunk", "powsum"} /\ c.res # "ok" THEN "bad refused"
  ELSE IF c.f = "786433" THEN BigVerdict(c)
  ELSE CASE c.op = "fft" -> FftVerdict(c) [] c.op = "lde" -> LdeVerdict(c) [] c.op = "pop" -> PopVerdict(c)
         [] c.op = "batchinv" -> BatchInvVerdict(c) [] c.op = "precomp" -> PrecompVerdict(c) [] c.op = "chunk" -> ChunkVerdict(c)
         [] c.op = "dom" -> DomVerdict(c) [] c.op = "domidx" -> DomIdxVerdict(c) [] c.op = "roots" -> RootsVerdict(c)
         [] c.op = "interp" -> InterpVerdict(c) [] c.op = "shape" -> ShapeVerdict(c) [] c.op = "powsum" -> PowSumVerdict(c)
         [] c.op = "chain" -> ChainVerdict(c)

VARIABLES k, done, why
vars == << k, done, why >>
Init == k \in 1..Len(Cases) /\ done = FALSE /\ why = "ok"
Judge == ~done /\ done' = TRUE /\ why' = Verdict(Cases[k]) /\ UNCHANGED k /\ Report(k, why')
Next == Judge
Spec == Init /\ [][Next]_vars
Accepted == ~IsBad(why)
=============================================================================
