-------------------------------- MODULE MCAli --------------------------------
(***************************************************************************)
(* From traces to the composition, checked over whole trace spaces of      *)
(* small instances: a trace satisfies the instance if and only if the      *)
(* composition is a polynomial - the value at every point off the shifted  *)
(* domain, computed from the cells there as the verifier does, is the      *)
(* value of the polynomial through the shifted domain. For a violating     *)
(* trace the two agree at few points only.                                 *)
(***************************************************************************)
EXTENDS Ali
CONSTANTS P, Names, Spread, Upto       \* Spread: values a cell is tried with

U(r, s, e, c) == [k |-> "w", r |-> r, s |-> s, e |-> e, c |-> c]
T(c, us) == [c |-> c, u |-> us]
Con(c, deg, start, span, ts) == [c |-> c, deg |-> deg, start |-> start, span |-> span, terms |-> ts]
Bc(r, row, v) == [k |-> "w", r |-> r, row |-> row, has |-> TRUE, v |-> v]
M1 == P - 1
Insts ==
  ("square"   :> [rows |-> 2, regs |-> 1, cons |-> << Con(0, 2, 0, 1, << T(1, << U(0, 1, 1, 1) >>), T(M1, << U(0, 0, 2, 1) >>) >>) >>, bc |-> << Bc(0, 0, 3) >>])
  @@ ("chain" :> [rows |-> 4, regs |-> 1, cons |-> << Con(0, 2, 0, 1, << T(1, << U(0, 1, 1, 1) >>), T(M1, << U(0, 0, 2, 1) >>) >>) >>, bc |-> << Bc(0, 3, 1) >>])
  @@ ("late"  :> [rows |-> 4, regs |-> 1, cons |-> << Con(1, 1, 1, 1, << T(1, << U(0, 1, 1, 1) >>), T(M1, << U(0, 0, 1, 1) >>) >>) >>, bc |-> << Bc(0, 0, 2) >>])
  @@ ("three" :> [rows |-> 3, regs |-> 1, cons |-> << Con(0, 1, 0, 1, << T(1, << U(0, 1, 1, 1) >>), T(M1, << U(0, 0, 1, 2) >>) >>) >>, bc |-> << Bc(0, 2, 4) >>])
  @@ ("pair"  :> [rows |-> 2, regs |-> 2, cons |-> << Con(0, 1, 0, 1, << T(1, << U(0, 1, 1, 1) >>), T(M1, << U(0, 0, 1, 1) >>), T(M1, << U(1, 0, 1, 1) >>) >>),
                                                     Con(0, 2, 0, 0, << T(1, << U(0, 0, 1, 1), U(1, 0, 1, 1) >>) >>) >>, bc |-> << Bc(1, 1, 0) >>])
  @@ ("cube"  :> [rows |-> 2, regs |-> 1, cons |-> << Con(0, 3, 0, 1, << T(1, << U(0, 1, 1, 1) >>), T(M1, << U(0, 0, 3, 1) >>) >>),
                                                     Con(P - 1, 2, 1, 0, << T(1, << U(0, 0, 2, 1) >>) >>) >>, bc |-> <<>>])
VARIABLES name, w, co, stage
vars == << name, w, co, stage >>
inst == Insts[name]
N == RowsDom(inst)
Cells == (1..inst.regs) \X (1..inst.rows)
\* coefficients: what is drawn for them, including a zero
Coefs == LET k == NumCoefs(inst) IN {[i \in 1..k |-> 1 + ((3 * i) % 5)], [i \in 1..k |-> (i * i + 2) % P], [i \in 1..k |-> IF i = 1 THEN 1 ELSE 0], [i \in 1..k |-> IF i = k THEN 1 ELSE 7 + i]}
Init == /\ name \in Names /\ w \in [1..inst.regs -> [1..inst.rows -> Spread]]
        /\ co = <<>> /\ stage = "trace"
Draw == stage = "trace" /\ stage' = "coefs" /\ co' \in Coefs /\ UNCHANGED << name, w >>
Next == Draw
Spec == Init /\ [][Next]_vars

polys == WitPolys(P, inst, w)
Shifted == TLCEval(LET m == N * DegDom(inst) IN {(FGen(P) * FPow(P, Omega(P, m), j - 1)) % P : j \in 1..m})
Off == {x \in (1..Upto) \cup Shifted : FPow(P, x, N) # 1}
AgreeOn(c, pl) == LET gk == TLCEval(GPoly(P, inst, GCoset(P, inst, c, pl))) IN
  TLCEval({x \in Off : Combined(P, inst, c, CellsAt(P, inst, pl, x), x) = PEval(P, gk, x)})
\* numerator degree over the common denominator bounds the number of points a wrong composition can agree on
Bound == (InstDeg(inst) + 1) * N + N
Interp == stage = "trace" => \A r \in 1..inst.regs : /\ Len(polys[r]) = N
                                                     /\ \A i \in 1..inst.rows : PEval(P, polys[r], FPow(P, Omega(P, N), i - 1)) = w[r][i]
Quotient == stage = "coefs" =>
  LET ag == AgreeOn(co, polys) IN
  /\ Shifted \subseteq ag
  /\ Satisfied(P, inst, w) = "yes" => ag = Off
\* a violating trace is found out: with a single coefficient that selects the violated constraint (all others zero) the
\* quotient is no polynomial and agrees at few points. For other coefficients violations can cancel, which is the
\* exceptional case of the protocol: everything is linear in them.
Detected == (stage = "trace" /\ Satisfied(P, inst, w) = "no") =>
  \E k \in 1..NumCoefs(inst) :
     Cardinality(AgreeOn([i \in 1..NumCoefs(inst) |-> IF i = k THEN 1 ELSE 0], polys)) <= Bound
=============================================================================
