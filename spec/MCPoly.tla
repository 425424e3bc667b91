------------------------------- MODULE MCPoly -------------------------------
(***************************************************************************)
(* A polynomial object: its vector together with what it caches about its  *)
(* domain (exponent, generator, inverse generator, inverse of the size).   *)
(* The operations of the library work with the cached parts; `pure' is the *)
(* same history on the bare vector, by definition. The object has to stay  *)
(* the vector, and a refused operation has to leave it alone. EAGER is the *)
(* design that resizes before it knows whether the domain exists.          *)
(***************************************************************************)
EXTENDS Poly
CONSTANTS P, EAGER, STALE, Start
ASSUME P \in {5, 17}

Cap == 2 ^ FS(P)
Cached(n) == [exp |-> Log2(n), omega |-> Omega(P, n), oinv |-> FInv(P, Omega(P, n)), minv |-> FInv(P, n % P)]
Object(form, v) == [form |-> form, v |-> v] @@ Cached(Len(v))

VARIABLES obj, pure, refused
vars == << obj, pure, refused >>
Vecs(n) == [1..n -> 0..(P - 1)]
Init == /\ \E v \in UNION {Vecs(n) : n \in Start}, f \in {"c", "v"} : obj = Object(f, v) /\ pure = [form |-> f, v |-> v]
        /\ refused = FALSE

Both(v, w) == obj' = [obj EXCEPT !.v = v] /\ pure' = [pure EXCEPT !.v = w] /\ refused' = FALSE
Ok(o, w, f) == obj' = o /\ pure' = [form |-> f, v |-> w] /\ refused' = FALSE

\* pad to a size: the object recomputes what it caches
Pad(m) ==
  LET n == Len(obj.v) IN
  IF m < n \/ ~IsPow2(m) THEN UNCHANGED << obj, pure >> /\ refused' = TRUE
  ELSE IF m > Cap THEN /\ obj' = (IF EAGER THEN [obj EXCEPT !.v = PPad(obj.v, m)] ELSE obj) /\ UNCHANGED pure /\ refused' = TRUE
  ELSE Ok(IF STALE THEN [obj EXCEPT !.v = PPad(obj.v, m), !.exp = Log2(m), !.omega = Omega(P, m)] ELSE Object(obj.form, PPad(obj.v, m)),
          PPad(pure.v, m), pure.form)
Trim(d) == Both([i \in 1..Len(obj.v) |-> IF i <= d + 1 THEN obj.v[i] ELSE 0], [i \in 1..Len(pure.v) |-> IF i <= d + 1 THEN pure.v[i] ELSE 0])
Scale(k) == Both(PScale(P, obj.v, k), PScale(P, pure.v, k))
Fft == /\ obj.form = "c"
       /\ Ok([obj EXCEPT !.form = "v", !.v = Dft(P, obj.v, obj.omega)], NaiveDft(P, pure.v, Omega(P, Len(pure.v)), Len(pure.v)), "v")
Ifft == /\ obj.form = "v"
        /\ LET c == PScale(P, Dft(P, obj.v, obj.oinv), obj.minv) IN
           \* by definition: the only vector whose transform is the value vector
           Ok([obj EXCEPT !.form = "c", !.v = c],
              CHOOSE d \in Vecs(Len(pure.v)) : NaiveDft(P, d, Omega(P, Len(pure.v)), Len(pure.v)) = pure.v, "c")
Extend(f) == /\ obj.form = "c" /\ Len(obj.v) * f <= Cap
             /\ LET n == Len(obj.v)
                    w == Omega(P, n * f)     \* the domain of the result is made anew; the transforms of the cosets use the cached one
                    cos == [k \in 1..f |-> CosetDft(P, obj.v, obj.omega, FPow(P, w, k - 1))]
                IN Ok(Object("v", [j \in 1..(n * f) |-> cos[((j - 1) % f) + 1][((j - 1) \div f) + 1]]),
                      NaiveDft(P, PPad(pure.v, n * f), w, n * f), "v")
Next == \/ \E m \in {1, 2, 3, 4, 8, 16, 32} : m <= 2 * Cap /\ Pad(m)
        \/ \E d \in 0..1 : Trim(d)
        \/ Scale(2) \/ Fft \/ Ifft
        \/ \E f \in {2, 4} : Extend(f)
Spec == Init /\ [][Next]_vars

SameVector == obj.form = pure.form /\ obj.v = pure.v
Coherent == /\ Len(obj.v) = 2 ^ obj.exp /\ HasOrder(P, obj.omega, Len(obj.v))
            /\ (obj.omega * obj.oinv) % P = 1 /\ (obj.minv * (Len(obj.v) % P)) % P = 1
RefusedLeavesAlone == [][refused' => obj' = obj]_vars
=============================================================================
