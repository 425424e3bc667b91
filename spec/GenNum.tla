------------------------------- MODULE GenNum -------------------------------
(* What the transforms and polynomial operations are driven through.       *)
EXTENDS Gen

FieldCap(f) == CASE f = "17" -> 4 [] f = "257" -> 8 [] f = "40961" -> 13 [] f = "5" -> 2 [] f = "gold" -> 32
Prime(f) == CASE f = "17" -> 17 [] f = "257" -> 257 [] f = "40961" -> 40961 [] f = "5" -> 5

-----------------------------------------------------------------------------
(* C11: transforms are linear, so unit vectors of every position decide a   *)
(* length; random vectors and extremes are added for wrap-around.          *)
Inputs(n) == {"b" \o ToString(j) : j \in 0..(n - 1)} \cup {"rand", "max"}
PolyVars == {"pfft", "pcoset", "pcosetgen", "pifft", "picoset", "picosetgen"}
KernelVars == {"best", "serial"}
FftSmall(K) ==
  S2({[op |-> "fft", f |-> f, k |-> k, cpus |-> c, var |-> v, in |-> x, gen |-> 7, inv |-> FALSE] :
     f \in {"17"}, k \in 0..K, c \in Cpus, v \in PolyVars \cup KernelVars, x \in {"rand", "max"}})
FftBasis == IF Prop # "C11" THEN <<>> ELSE
  FlattenSeq(S2({S2({[op |-> "fft", f |-> "257", k |-> k, cpus |-> c, var |-> v, in |-> x, gen |-> 9, inv |-> FALSE] :
     c \in Q({1, 3, 8}, Cpus), v \in PolyVars \cup KernelVars \cup {"dit", "sdit"}, x \in Inputs(2 ^ k)}) : k \in Q(1..4, 1..5)}))
FftPar == IF Prop # "C11" THEN <<>> ELSE S2({[op |-> "fft", f |-> f, k |-> kl[1], cpus |-> c, var |-> "parallel", logcpus |-> kl[2], in |-> x, inv |-> iv] :
     f \in {"257", "40961"}, kl \in {y \in (1..8) \X (0..4) : y[2] <= y[1]}, c \in {1, 3, 8}, x \in {"rand"}, iv \in BOOLEAN})
FftR4 == IF Prop # "C11" THEN <<>> ELSE S2({[op |-> "fft", f |-> f, k |-> k, cpus |-> c, var |-> v, in |-> x, inv |-> iv] :
     f \in {"257", "40961"}, k \in {0, 2, 4, 6, 8}, c \in Cpus, v \in {"radix4", "sradix4"}, x \in {"rand", "max", "b3"}, iv \in BOOLEAN})
FftDit == IF Prop # "C11" THEN <<>> ELSE S2({[op |-> "fft", f |-> f, k |-> kn[1], cpus |-> c, var |-> v, in |-> "rand", nz |-> kn[2], inv |-> iv] :
     f \in {"257"}, kn \in {y \in (0..7) \X {1, 2, 4, 8, 16, 32, 64, 128} : y[2] = 2 ^ y[1] }, c \in Cpus, v \in {"dit", "sdit"}, iv \in BOOLEAN})
FftHint == IF Prop # "C11" THEN <<>> ELSE S2({[op |-> "fft", f |-> "257", k |-> k, cpus |-> ch[1], var |-> "besthint", hint |-> ch[2], in |-> "rand", inv |-> FALSE] :
     k \in 0..8, ch \in {y \in Cpus \X {1, 2, 3, 4, 5, 8} : y[2] <= y[1]}})
FftLarge == IF Prop # "C11" THEN <<>> ELSE S2({[op |-> "fft", f |-> f, k |-> k, cpus |-> c, var |-> v, in |-> "rand", gen |-> 11, inv |-> FALSE] :
     f \in {"40961"}, k \in 5..10, c \in Q({1, 5, 8}, Cpus), v \in PolyVars \cup {"best", "serial", "dit"}})
\* up to the largest domain of the field, where inputs of the size of real traces go through several passes
FftHuge == IF Prop # "C11" THEN <<>> ELSE S2({[op |-> "fft", f |-> f, k |-> k, cpus |-> c, var |-> v, in |-> "rand", gen |-> 11, inv |-> FALSE] :
     f \in {"40961"}, k \in 11..13, c \in Q({4}, {1, 2, 4, 8, 16}), v \in PolyVars \cup {"best"}})
     \o S2({[op |-> "fft", f |-> f, k |-> kc[1], cpus |-> kc[2], var |-> v, in |-> "rand", inv |-> FALSE] :
     f \in {"40961"}, kc \in {<<10, 8>>, <<12, 8>>, <<12, 1>>}, v \in {"radix4", "sradix4"}})
\* the sizes of real traces, on sparse inputs
FftSparse == IF Prop # "C11" THEN <<>> ELSE S2({[op |-> "fft", f |-> "786433", k |-> k, cpus |-> c, var |-> v, in |-> "sparse", gen |-> 11, inv |-> FALSE] :
     k \in Q({14, 16, 17}, 14..18), c \in Q({1, 8}, {1, 3, 8, 16}), v \in PolyVars \cup {"best", "serial"}})
     \o S2({[op |-> "fft", f |-> "786433", k |-> k, cpus |-> 8, var |-> v, in |-> "sparse", inv |-> FALSE] : k \in {14, 16}, v \in {"radix4", "sradix4"}})
     \o S2({[op |-> "fft", f |-> "786433", k |-> k, cpus |-> 8, var |-> "parallel", logcpus |-> 3, in |-> "sparse", inv |-> TRUE] : k \in {15, 17}})
C11 == IF Prop # "C11" THEN <<>> ELSE FftSmall(4) \o FftBasis \o FftPar \o FftR4 \o FftDit \o FftHint \o FftLarge \o FftHuge \o FftSparse

-----------------------------------------------------------------------------
(* C12 *)
LdeVars == {"lde", "naive", "filter", "clde", "cnaive", "cfilter", "best", "serial"}
LdeBasis == IF Prop # "C12" THEN <<>> ELSE FlattenSeq(S2({S2({[op |-> "lde", f |-> "257", k |-> k, factor |-> fa, cpus |-> c, var |-> v, in |-> x] :
     fa \in {1, 2, 4, 8}, c \in Q({1, 3, 4}, Cpus), v \in LdeVars, x \in Inputs(2 ^ k)}) : k \in Q(0..3, 0..4)}))
LdeAll == IF Prop # "C12" THEN <<>> ELSE S2({[op |-> "lde", f |-> "40961", k |-> k, factor |-> fa, cpus |-> c, var |-> v, in |-> "rand"] :
     k \in 0..Q(5, 6), fa \in {1, 2, 4, 8, 16}, c \in Cpus, v \in LdeVars \cup {"cosets", "ccosets"}})
LdeWide == IF Prop # "C12" THEN <<>> ELSE S2({[op |-> "lde", f |-> "40961", k |-> k, factor |-> fa, cpus |-> c, var |-> v, in |-> x] :
     k \in {1, 3}, fa \in {32, 64}, c \in {1, 2, 7, 16}, v \in LdeVars, x \in {"rand", "nz", "sparse"}})
LdeHuge == IF Prop # "C12" THEN <<>> ELSE S2({[op |-> "lde", f |-> "40961", k |-> kf[1], factor |-> kf[2], cpus |-> c, var |-> v, in |-> "rand"] :
     kf \in {<<7, 4>>, <<8, 2>>, <<8, 16>>, <<9, 8>>, <<10, 4>>, <<11, 2>>, <<12, 1>>, <<6, 128>>, <<2, 256>>, <<3, 256>>, <<0, 512>>, <<1, 512>>, <<3, 512>>, <<2, 1024>>, <<3, 1024>>, <<1, 2048>>, <<1, 4096>>}, c \in Q({1, 8}, {1, 3, 8}), v \in LdeVars})
LdeSparse == IF Prop # "C12" THEN <<>> ELSE S2({[op |-> "lde", f |-> "786433", k |-> kf[1], factor |-> kf[2], cpus |-> c, var |-> v, in |-> "sparse"] :
     kf \in Q({<<10, 16>>, <<13, 8>>, <<16, 1>>, <<15, 2>>}, {<<10, 16>>, <<12, 16>>, <<13, 8>>, <<16, 1>>, <<15, 2>>, <<9, 512>>}), c \in {1, 8}, v \in LdeVars})
C12 == IF Prop # "C12" THEN <<>> ELSE LdeBasis \o LdeAll \o LdeWide \o LdeHuge \o LdeSparse

-----------------------------------------------------------------------------
(* C13 *)
Lens == Q((1..20) \cup {31, 32, 33, 40, 63, 64, 65, 100, 255, 256}, (1..70) \cup {127, 128, 129, 255, 256, 1000})
Pow2Lens == {1, 2, 4, 8, 16, 32, 64, 128}
Elementwise == {"add", "sub", "mul", "adds", "addc", "cadd", "csub", "cadds", "scale", "neg", "dist", "sqr", "eval"}
PopAll == IF Prop # "C13" THEN <<>> ELSE S2({[op |-> "pop", f |-> f, what |-> w, n |-> n, m |-> n, cpus |-> c, in |-> x] :
     f \in {"257", "40961"}, w \in Elementwise, n \in Pow2Lens, c \in Cpus, x \in {"rand"}})
PopBig == IF Prop # "C13" THEN <<>> ELSE S2({[op |-> "pop", f |-> "40961", what |-> w, n |-> n, m |-> n, cpus |-> c, in |-> "rand"] :
     w \in Elementwise, n \in {256, 1024, 4096}, c \in Q({1, 3, 8}, Cpus)})
PopEdge == IF Prop # "C13" THEN <<>> ELSE S2({[op |-> "pop", f |-> f, what |-> w, n |-> n, m |-> n, cpus |-> c, in |-> x, c |-> k] :
     f \in {"257"}, w \in Elementwise, n \in {4, 8}, c \in {1, 3, 8}, x \in {"zero", "max"}, k \in {0, 1, 256}})
PopShorter == IF Prop # "C13" THEN <<>> ELSE S2({[op |-> "pop", f |-> "257", what |-> w, n |-> nm[1], m |-> nm[2], cpus |-> c, in |-> "rand"] :
     w \in {"cadd", "csub", "cadds"}, nm \in {y \in Pow2Lens \X Pow2Lens : y[2] < y[1]}, c \in Cpus})
PopPow == IF Prop # "C13" THEN <<>> ELSE S2({[op |-> "pop", f |-> "257", what |-> "pow", n |-> n, m |-> n, cpus |-> c, in |-> "rand", e |-> e] :
     n \in {1, 2, 8, 16, 64}, c \in Cpus, e \in {0, 1, 2, 3, 4, 5, 6, 7, 16, 17, 31, 64, 127, 255, 256, 257, 65535, 2147483647}})
\* powers beyond 32 bits
     \o S2({[op |-> "pop", f |-> f, what |-> "pow", n |-> n, m |-> n, cpus |-> c, in |-> "rand", e |-> e, bump |-> b] :
     f \in {"257", "40961"}, n \in {1, 8, 16}, c \in {1, 3, 8}, e \in {1, 2, 7, 255}, b \in {8, 16, 23, 24, 32, 40, 47}})
PopDeg1 == IF Prop # "C13" THEN <<>> ELSE S2({[op |-> "pop", f |-> f, what |-> w, n |-> 2, m |-> 2, cpus |-> c, in |-> "rand", size |-> s] :
     f \in {"257", "40961"}, w \in {"deg1", "cdeg1"}, c \in Cpus, s \in {1, 2, 4, 8, 16, 32, 64, 128, 256}})
PopUtil == IF Prop # "C13" THEN <<>> ELSE S2({[op |-> "pop", f |-> "40961", what |-> w, n |-> n, m |-> n, cpus |-> c, in |-> "rand"] :
     w \in {"uscale", "umuladd"}, n \in Lens, c \in {1, 3, 5, 8}})
BInv == IF Prop # "C13" THEN <<>> ELSE S2({[op |-> "batchinv", f |-> f, n |-> n, cpus |-> c, in |-> "nz"] : f \in {"257", "40961"}, n \in Pow2Lens \cup {256}, c \in Cpus})
     \o S2({[op |-> "batchinv", f |-> "40961", n |-> n, cpus |-> c, in |-> "nz"] : n \in {512, 2048}, c \in Cpus})
BInvZ == IF Prop # "C13" THEN <<>> ELSE S2({[op |-> "batchinv", f |-> "257", n |-> nz[1], cpus |-> c, in |-> "nz", zeros |-> << nz[2] >>] :
     nz \in {y \in {1, 2, 4, 8, 16} \X (0..15) : y[2] < y[1]}, c \in Q(CpusFew, Cpus)})
BInvZBig == IF Prop # "C13" THEN <<>> ELSE S2({[op |-> "batchinv", f |-> "40961", n |-> nz[1], cpus |-> c, in |-> "nz", zeros |-> << nz[2] >>] :
     nz \in {<<64, 0>>, <<64, 31>>, <<64, 63>>, <<512, 0>>, <<512, 300>>, <<512, 511>>}, c \in Cpus})
BInvZ2 == IF Prop # "C13" THEN <<>> ELSE S2({[op |-> "batchinv", f |-> "257", n |-> 16, cpus |-> c, in |-> "nz", zeros |-> << a, b >>] :
     a \in {0, 5, 9}, b \in {10, 15}, c \in Cpus})
Pre == IF Prop # "C13" THEN <<>> ELSE S2({[op |-> "precomp", f |-> f, n |-> n, cpus |-> c] : f \in {"257", "40961"}, n \in {2, 4, 8, 16, 32, 64, 128, 256}, c \in Cpus})
Chunks == IF Prop # "C13" THEN <<>> ELSE S2({[op |-> "chunk", f |-> "257", n |-> n, cpus |-> c] : n \in 1..Q(40, 130), c \in Q(Cpus, 1..17)})
PSum == IF Prop # "C13" THEN <<>> ELSE S2({[op |-> "powsum", f |-> f, n |-> n, cpus |-> c, in |-> "rand"] : f \in {"257", "40961"}, n \in Lens, c \in Cpus})
PopSized == IF Prop # "C13" THEN <<>> ELSE S2({[op |-> "pop", f |-> "786433", what |-> w, n |-> n, m |-> n, cpus |-> c, in |-> "rand"] :
     w \in Elementwise, n \in Q({65536}, {32768, 65536}), c \in Q({8}, {1, 8})})
     \o S2({[op |-> "pop", f |-> "786433", what |-> w, n |-> 16384, m |-> 16384, cpus |-> c, in |-> "rand"] : w \in Elementwise, c \in {1, 3, 6, 8}})
     \o S2({[op |-> "pop", f |-> "786433", what |-> w, n |-> 2, m |-> 2, cpus |-> c, in |-> "rand", size |-> 65536] : w \in {"deg1", "cdeg1"}, c \in {1, 8}})
     \o S2({[op |-> "pop", f |-> "786433", what |-> w, n |-> 65536, m |-> 65536, cpus |-> 8, in |-> "rand", e |-> 5] : w \in {"pow"}})
     \o S2({[op |-> "batchinv", f |-> "786433", n |-> n, cpus |-> c, in |-> "nz"] : n \in {16384, 65536}, c \in Q({1, 3, 6, 8}, Cpus)})
     \o S2({[op |-> "precomp", f |-> "786433", n |-> n, cpus |-> c] : n \in {32768, 131072}, c \in {1, 3, 8}})
     \o S2({[op |-> "powsum", f |-> "786433", n |-> n, cpus |-> c, in |-> "rand"] : n \in {65535, 65536, 70000}, c \in {1, 6, 8}})
C13 == IF Prop # "C13" THEN <<>> ELSE PopAll \o PopBig \o BInvZBig \o PopEdge \o PopShorter \o PopPow \o PopDeg1 \o PopUtil \o BInv \o BInvZ \o BInvZ2 \o Pre \o Chunks \o PSum \o PopSized

-----------------------------------------------------------------------------
(* C14 *)
Doms == IF Prop # "C14" THEN <<>> ELSE S2({[op |-> "dom", f |-> f, lg |-> lo[1], off |-> lo[2]] :
     f \in {"5", "17", "257", "40961", "gold"},
     lo \in {y \in (0..64) \X {-3, -1, 0, 1, 2, 5} : /\ (y[1] = 64 => y[2] < 0) /\ (y[1] < 4 => y[2] = 0) }})
     \o S2({[op |-> "dom", f |-> f, lg |-> lo[1], off |-> lo[2]] :
          f \in {"5", "17", "257", "40961", "gold"}, lo \in {<<2, -1>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<3, -1>>, <<3, 1>>, <<3, 7>>, <<3, -3>>}})
Idx == IF Prop # "C14" THEN <<>> ELSE S2({[op |-> "domidx", f |-> "257", size |-> s] : s \in {2, 4, 8, 16, 32, 64, 128, 256}})
Rts == IF Prop # "C14" THEN <<>> ELSE S2({[op |-> "roots", f |-> f, n |-> n, cpus |-> c, in |-> x] :
     f \in {"17", "257", "40961"}, n \in 1..Q(20, 40), c \in Cpus, x \in {"rand", "one", "zero"}})
RtsBig == IF Prop # "C14" THEN <<>> ELSE S2({[op |-> "roots", f |-> "40961", n |-> n, cpus |-> c, in |-> x] :
     n \in {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500} \cup Q({}, {511, 512, 700, 1000}), c \in {1, 3, 5, 8}, x \in Q({"rand"}, {"rand", "zero"})})
ItpBig == IF Prop # "C14" THEN <<>> ELSE S2({[op |-> "interp", f |-> "40961", n |-> n, cpus |-> 1, in |-> x, zx |-> FALSE] : n \in {33, 64, 65, 100, 129}, x \in {"rand", "sparse"}})
Itp == IF Prop # "C14" THEN <<>> ELSE S2({[op |-> "interp", f |-> f, n |-> n, cpus |-> 1, in |-> "rand", zx |-> z] : f \in {"257", "40961"}, n \in Q(2..16, 2..33), z \in BOOLEAN})
ItpSmall == IF Prop # "C14" THEN <<>> ELSE S2({[op |-> "interp", f |-> "17", n |-> n, cpus |-> 1, in |-> x, zx |-> z] : n \in 2..17, x \in {"rand", "zero", "one", "sparse"}, z \in BOOLEAN})
ShpNew == IF Prop # "C14" THEN <<>> ELSE S2({[op |-> "shape", f |-> f, what |-> w, n |-> n, arg |-> 0, cpus |-> c, in |-> "rand"] :
     f \in {"17", "257"}, w \in {"new", "newc", "newv", "vals"}, n \in 1..Q(20, 40), c \in {1, 3}})
     \o S2({[op |-> "shape", f |-> "257", what |-> w, n |-> n, arg |-> 0, cpus |-> 3, in |-> "rand"] :
     w \in {"new", "newc", "newv", "vals"}, n \in {63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 300, 512, 513}})
ShpPad == IF Prop # "C14" THEN <<>> ELSE S2({[op |-> "shape", f |-> f, what |-> "padf", n |-> n, arg |-> a, cpus |-> c, in |-> "rand"] :
     f \in {"17", "257"}, n \in {1, 2, 3, 4, 5, 8}, a \in {1, 2, 3, 4, 5, 6, 8, 12, 16, 32}, c \in {1, 3}})
ShpSize == IF Prop # "C14" THEN <<>> ELSE S2({[op |-> "shape", f |-> f, what |-> "pads", n |-> n, arg |-> a, cpus |-> 2, in |-> "rand"] :
     f \in {"17", "257"}, n \in {1, 2, 3, 4, 5, 8}, a \in {1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 24, 32}})
ShpTrim == IF Prop # "C14" THEN <<>> ELSE S2({[op |-> "shape", f |-> f, what |-> "trim", n |-> n, arg |-> a, cpus |-> 2, in |-> "rand"] :
     f \in {"17", "257"}, n \in {1, 2, 3, 4, 5, 8, 16}, a \in 0..17})
PSum14 == IF Prop # "C14" THEN <<>> ELSE S2({[op |-> "powsum", f |-> f, n |-> n, cpus |-> c, in |-> x] : f \in {"17", "40961"}, n \in Lens, c \in Cpus, x \in {"rand", "max"}})
     \o S2({[op |-> "powsum", f |-> f, n |-> n, cpus |-> c, in |-> "rand", first |-> fb[1], base |-> fb[2]] :
          f \in {"17", "257"}, n \in {1, 2, 3, 4, 5, 8, 9, 16, 31, 64}, c \in {1, 3, 8}, fb \in {0, 1, 2, -1} \X {0, 1, -1, 3}})
C14 == IF Prop # "C14" THEN <<>> ELSE Doms \o Idx \o Rts \o RtsBig \o Itp \o ItpBig \o ItpSmall \o ShpNew \o ShpPad \o ShpSize \o ShpTrim \o PSum14

-----------------------------------------------------------------------------
(* C25: histories of operations on one object. Which operations apply depends on the form the object is in and on its size *)
(* (kept below 2^cap); refused ones are included where the object survives them.                                         *)
Anywhere(n) == << <<"padf", 1>>, <<"padf", 2>>, <<"padf", 3>>, <<"pads", n>>, <<"pads", 2 * n>>, <<"pads", 3 * n>>, <<"pads", 0>>, <<"trim", 0>>,
                  <<"trim", n \div 2>>, <<"trim", n - 1>>, <<"trim", 2 * n>>, <<"scale", 2>>, <<"scale", 3>>, <<"neg", 0>>, <<"dist", 2>>, <<"dist", 0>>,
                  <<"padf", 4>>, <<"padf", 512>>, <<"pads", 1024>>, <<"padf", 1024>> >>
OnCoeffs == IF Prop # "C25" THEN <<>> ELSE << <<"fft", 0>>, <<"cfft", 0>>, <<"gfft", 2>>, <<"lde", 1>>, <<"lde", 2>>, <<"clde", 2>>, <<"clde", 4>>, <<"filt", 2>>, <<"cfilt", 2>>, <<"naive", 2>>,
               <<"cnaive", 4>>, <<"add", 0>>, <<"hadd", 0>>, <<"sub", 0>>, <<"hsub", 0>>, <<"adds", 2>>, <<"hadds", 2>>, <<"lde", 512>>, <<"clde", 1024>>, <<"filt", 1024>>, <<"naive", 512>> >>
OnValues == IF Prop # "C25" THEN <<>> ELSE << <<"ifft", 0>>, <<"icfft", 0>>, <<"add", 0>>, <<"sub", 0>>, <<"adds", 2>>, <<"mul", 0>>, <<"addc", 2>>, <<"pow", 3>>, <<"pow", 2>>, <<"pow", 0>>,
               <<"sqr", 0>>, <<"binv", 0>> >>
Grows(o) == o[1] \in {"padf", "lde", "clde", "filt", "cfilt", "naive", "cnaive"}
Size(o, n) == IF Grows(o) THEN (IF o[2] \in {1, 2, 4, 8} THEN n * o[2] ELSE n)
              ELSE IF o[1] = "pads" THEN (IF o[2] \in {n, 2 * n} THEN o[2] ELSE n) ELSE n
Turns(o, form) == IF o[1] \in {"ifft", "icfft"} THEN "c"
                  ELSE IF o[1] \in {"fft", "cfft", "gfft"} \/ (Grows(o) /\ o[1] # "padf" /\ o[2] < 512) THEN "v" ELSE form
Ops(form, n, top) == SelectSeq(Anywhere(n) \o (IF form = "c" THEN OnCoeffs ELSE OnValues), LAMBDA o : Size(o, n) <= top)
Step(o) == [o |-> o[1], x |-> o[2]]
Lcg(x) == (x * 75 + 74) % 65537
RECURSIVE Walk(_, _, _, _, _)
Walk(form, n, top, m, x) == IF m = 0 THEN <<>>
  ELSE LET ops == Ops(form, n, top) o == ops[((x \div 5) % Len(ops)) + 1]
       IN << Step(o) >> \o Walk(Turns(o, form), Size(o, n), top, m - 1, Lcg(x))
RECURSIVE All(_, _, _, _)
All(form, n, top, m) == IF m = 0 THEN { <<>> }
  ELSE UNION { LET o == Ops(form, n, top)[i] IN { << Step(o) >> \o t : t \in All(Turns(o, form), Size(o, n), top, m - 1) } : i \in 1..Len(Ops(form, n, top)) }
AllChains(m, n) == FlattenSeq(S2({S2({[op |-> "chain", f |-> "257", n |-> n, form |-> fm, cpus |-> c, in |-> "nz", steps |-> t] : t \in All(fm, n, 16, m)}) : fm \in {"c", "v"}, c \in {1, 3}}))
LongChains == IF Prop # "C25" THEN <<>> ELSE S2({[op |-> "chain", f |-> f, n |-> n, form |-> fm, cpus |-> c, in |-> x, steps |-> Walk(fm, n, Q(32, 64), Q(14, 30), (j * 4099 + n * 31 + c + Seed * 7) % 65537)] :
     f \in {"257"}, n \in {1, 2, 4, 8, 16}, fm \in {"c", "v"}, c \in Q({1, 2, 5}, {1, 2, 3, 4, 5, 8, 16}), x \in {"nz", "rand", "sparse"}, j \in 1..Q(6, 20)})
C25 == IF Prop # "C25" THEN <<>> ELSE AllChains(2, 4) \o Thin(AllChains(3, 2), Q(40, 4)) \o LongChains

Scenarios == CASE Prop = "C11" -> C11 [] Prop = "C12" -> C12 [] Prop = "C13" -> C13 [] Prop = "C14" -> C14 [] Prop = "C25" -> C25
ASSUME Write(Seeded(Scenarios))
=============================================================================
