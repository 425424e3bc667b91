------------------------------- MODULE MCNum -------------------------------
(***************************************************************************)
(* The definitions the recordings are judged by, checked exhaustively over *)
(* small fields: the fast transform is the definition of the transform,    *)
(* the inverse undoes it, cosets, extension by cosets (right exactly       *)
(* outside the configurations of D1), resizing, batch inversion as the     *)
(* code does it, products of roots.                                        *)
(***************************************************************************)
EXTENDS Lde
CONSTANTS Fields, MaxLen, MaxF, MaxCpus, Dense     \* vectors are exhaustive up to Dense candidates, else unit vectors

VARIABLES p, a, what, f, cpus, done
vars == << p, a, what, f, cpus, done >>

Lens(q) == {n \in {1, 2, 4, 8, 16} : n <= MaxLen /\ n <= 2 ^ FS(q)}
Unit(n, i, v) == [j \in 1..n |-> IF j = i THEN v ELSE 0]
RECURSIVE Fits(_, _, _)
Fits(q, m, cap) == IF m = 0 THEN cap >= 1 ELSE Fits(q, m - 1, cap \div q)      \* q^m <= cap
Vectors(q, n) == IF Fits(q, n, Dense) THEN [1..n -> 0..(q - 1)]
                 ELSE {Unit(n, i, v) : i \in 1..n, v \in {1, q - 1}} \cup {[j \in 1..n |-> (7 * j * j + 3 * j + 1) % q], [j \in 1..n |-> 1]}
Init == /\ p \in Fields /\ a \in UNION {Vectors(p, n) : n \in Lens(p)}
        /\ what \in {"dft", "lde", "inv", "roots"}
        /\ f \in IF what = "lde" THEN {x \in {1, 2, 4, 8, 16} : x <= MaxF /\ Len(a) * x <= 2 ^ FS(p)} ELSE {1}
        /\ cpus \in IF what \in {"lde", "inv"} THEN 1..MaxCpus ELSE {1}
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED << p, a, what, f, cpus >>
Spec == Init /\ [][Next]_vars

n == Len(a)
w == Omega(p, n)
Dfts == /\ HasOrder(p, w, n)
        /\ Dft(p, a, w) = NaiveDft(p, a, w, n)
        /\ IDft(p, Dft(p, a, w), w) = a
        /\ CosetDft(p, a, w, FGen(p)) = [i \in 1..n |-> PEval(p, a, (FGen(p) * FPow(p, w, i - 1)) % p)]
        /\ CosetIDft(p, CosetDft(p, a, w, FGen(p)), w, FGen(p)) = a
        /\ Powers(p, w, n) = [i \in 1..n |-> FPow(p, w, i - 1)]
\* the known finding is exactly where the coded extension is wrong (for polynomials that tell the shifts apart)
Ldes == LET right == CosetLde(p, a, f, FGen(p)) coded == LdeAsCoded(p, a, f, cpus, FGen(p)) IN
        /\ right = [i \in 1..(n * f) |-> PEval(p, a, (FGen(p) * FPow(p, Omega(p, n * f), i - 1)) % p)]
        /\ ~LdeDefect(f, cpus) => coded = right
        /\ (LdeDefect(f, cpus) /\ PDeg(a) >= 1 /\ coded = right) => \E i \in 1..n : a[i] # 0 /\ (i - 1) % 2 = 0   \* sparse coincidences only
\* batch inversion per chunk: running products, one inversion, backwards sweep (as the code does it)
BatchInv(v) ==
  LET parts == IF v = <<>> THEN <<>> ELSE [k \in 1..CeilDiv(Len(v), ChunkSize(Len(v), cpus)) |->
                 SubSeq(v, (k - 1) * ChunkSize(Len(v), cpus) + 1, Min2(Len(v), k * ChunkSize(Len(v), cpus)))]
      one(s) == LET m == Len(s)
                    pre == TLCEval([i \in 0..m |-> FoldLeft(LAMBDA acc, x : (acc * x) % p, 1, SubSeq(s, 1, i))])
                    g == [i \in 1..m |-> FInv(p, FoldLeft(LAMBDA acc, x : (acc * x) % p, 1, SubSeq(s, 1, i)))]
                IN [i \in 1..m |-> (pre[i - 1] * g[i]) % p]
  IN FlattenSeq([k \in 1..Len(parts) |-> one(parts[k])])
Invs == (\A i \in 1..n : a[i] # 0) => \A i \in 1..n : (a[i] * BatchInv(a)[i]) % p = 1
Roots == LET r == PFromRoots(p, a) IN
         /\ Len(r) = n + 1 /\ r[n + 1] = 1
         /\ \A x \in 0..(p - 1) : PEval(p, r, x) = FoldLeft(LAMBDA acc, z : (acc * ((x - z) % p)) % p, 1, a)
Right == CASE what = "dft" -> Dfts [] what = "lde" -> Ldes [] what = "inv" -> Invs [] what = "roots" -> Roots
=============================================================================
