------------------------------- MODULE MCExpr -------------------------------
(***************************************************************************)
(* Constraints as they are written, step by step, and the formal           *)
(* polynomial they are compared by: for every way of writing and every     *)
(* assignment the formal polynomial has the value of the written           *)
(* expression; two constraints with one formal polynomial agree            *)
(* everywhere, with different ones (of low degree) they differ somewhere.  *)
(***************************************************************************)
EXTENDS Air
CONSTANTS P, MaxSteps
Cellz == {<< "r", 0, 0 >>, << "r", 0, 1 >>, << "r", 1, 0 >>}
F == 0..(P - 1)
Us == {[k |-> c[1], r |-> c[2], s |-> c[3], e |-> e, c |-> k] : c \in Cellz, e \in {1, 2}, k \in {1, 3}}
\* a term: coefficient and at most two factors
Terms == {[c |-> k, u |-> << >>] : k \in {1, 4}} \cup {[c |-> k, u |-> << u >>] : k \in {1, 2}, u \in Us}
         \cup {[c |-> 3, u |-> << u, [k |-> "r", r |-> 0, s |-> 0, e |-> 1, c |-> 2] >>] : u \in Us}
VARIABLES con
Init == con \in {[c |-> k, deg |-> 0, start |-> 0, span |-> 0, terms |-> <<>>] : k \in {0, 2}}
Neg(t) == [t EXCEPT !.c = (0 - @) % P]
Add == /\ Len(con.terms) < MaxSteps
       /\ \E t \in Terms, s \in BOOLEAN :
            con' = IF t.u = <<>> THEN [con EXCEPT !.c = IF s THEN (@ - t.c) % P ELSE (@ + t.c) % P, !.terms = Append(@, [c |-> 0, u |-> <<>>])]
                   ELSE [con EXCEPT !.terms = Append(@, IF s THEN Neg(t) ELSE t)]
Spec == Init /\ [][Add]_con
Asg == [Cellz -> {0, 1, 2, P - 1}]
Direct(a) == FoldLeft(LAMBDA acc, t : (acc + FoldLeft(LAMBDA m, u : (m * ((u.c * FPow(P, a[<< u.k, u.r, u.s >>], u.e)) % P)) % P, t.c, t.u)) % P, con.c, con.terms)
RECURSIVE MonoVal(_, _, _)
MonoVal(m, a, cs) == IF cs = {} THEN 1 ELSE LET c == CHOOSE x \in cs : TRUE IN (FPow(P, a[c], m[c]) * MonoVal(m, a, cs \ {c})) % P
ByFormal(f, a) == LET s == SetToSeq(f) IN FoldLeft(LAMBDA acc, x : (acc + x[2] * MonoVal(x[1], a, DOMAIN x[1])) % P, 0, s)
Meaning == LET f == Formal(P, con) IN \A a \in Asg : ByFormal(f, a) = Direct(a)
MonoDeg(m) == LET s == SetToSeq(DOMAIN m) IN FoldLeft(LAMBDA acc, c : acc + m[c], 0, s)
Degree == \A x \in Formal(P, con) : MonoDeg(x[1]) <= ConDeg(con)
\* not zero as a polynomial with exponents below P: not zero everywhere
NonZero == Formal(P, con) # {} => \E a \in [Cellz -> F] : Direct(a) # 0
=============================================================================
