--------------------------------- MODULE Air ---------------------------------
(***************************************************************************)
(* Instances: constraints over the registers of a trace, applied on a      *)
(* range of rows, and boundary values. An instance and a trace are records *)
(* in the form in which they are recorded from the real code:              *)
(*  inst = [rows, regs, cons, bc]                                          *)
(*  con  = [c, deg, start, span, terms : seq of [c, u : seq of             *)
(*                                             [k, r, s, e, c]]]           *)
(*  bc   = [k, r, row, has, v]                                             *)
(***************************************************************************)
EXTENDS Poly

UVal(p, w, u, row) == (u.c * FPow(p, w[u.r + 1][row + u.s + 1], u.e)) % p
TermVal(p, w, t, row) == FoldLeft(LAMBDA acc, u : (acc * UVal(p, w, u, row)) % p, t.c, t.u)
ConVal(p, w, con, row) == FoldLeft(LAMBDA acc, t : (acc + TermVal(p, w, t, row)) % p, con.c, con.terms)

AllU(con) == FlattenSeq([i \in 1..Len(con.terms) |-> con.terms[i].u])
\* rows (from 0) on which a constraint has to hold in a trace of n rows
RowsOf(con, n) == con.start..(n - con.span - 1)
Beyond(con, n) == \E row \in RowsOf(con, n) : \E i \in 1..Len(AllU(con)) : row + AllU(con)[i].s >= n

ConHolds(p, w, con) == \A row \in RowsOf(con, Len(w[1])) : ConVal(p, w, con, row) = 0
BcHolds(w, b) == b.has => b.row < Len(w[1]) /\ w[b.r + 1][b.row + 1] = b.v
\* "yes", "no", or "beyond" when a checked row reads past the trace
Satisfied(p, inst, w) ==
  LET n == Len(w[1]) IN
  IF \E i \in 1..Len(inst.cons) : Beyond(inst.cons[i], n) THEN "beyond"
  ELSE IF /\ \A i \in 1..Len(inst.cons) : ConHolds(p, w, inst.cons[i])
          /\ \A i \in 1..Len(inst.bc) : BcHolds(w, inst.bc[i]) THEN "yes" ELSE "no"

TermDeg(t) == FoldLeft(LAMBDA acc, u : acc + u.e, 0, t.u)
ConDeg(con) == FoldLeft(LAMBDA acc, t : Max2(acc, TermDeg(t)), 0, con.terms)

-----------------------------------------------------------------------------
(* constraints as formal polynomials: set of << monomial, coefficient >>,   *)
(* a monomial being a function from cells << kind, register, step >> to     *)
(* exponents. Two constraints with the same polynomial agree on every       *)
(* assignment.                                                              *)
Mono(us) == LET cells == {<< us[i].k, us[i].r, us[i].s >> : i \in 1..Len(us)} IN
  [x \in {y \in cells : \E i \in 1..Len(us) : << us[i].k, us[i].r, us[i].s >> = y /\ us[i].e > 0} |->
      FoldLeft(LAMBDA acc, u : IF << u.k, u.r, u.s >> = x THEN acc + u.e ELSE acc, 0, us)]
TermCoef(p, t) == FoldLeft(LAMBDA acc, u : (acc * u.c) % p, t.c, t.u)
\* terms with their coefficients: seq of << mono, coef >>
Collect(p, ts) ==
  LET ms == {ts[i][1] : i \in 1..Len(ts)}
      f == [m \in ms |-> FoldLeft(LAMBDA acc, t : IF t[1] = m THEN (acc + t[2]) % p ELSE acc, 0, ts)]
  IN {<< m, f[m] >> : m \in {x \in ms : f[x] # 0}}
Formal(p, con) ==
  Collect(p, [i \in 1..Len(con.terms) |-> << Mono(con.terms[i].u), TermCoef(p, con.terms[i]) >>] \o << << Mono(<<>>), con.c >> >>)
=============================================================================
