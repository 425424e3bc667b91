--------------------------------- MODULE Ali ---------------------------------
(***************************************************************************)
(* From an instance to polynomials: the distinct (register, step) pairs,   *)
(* the composition polynomial of the constraints and boundary conditions,  *)
(* and the quotients at the out-of-domain point.                           *)
(***************************************************************************)
EXTENDS Air, Lde

InstDeg(inst) == FoldLeft(LAMBDA acc, c : Max2(acc, c.deg), 0, inst.cons)
RowsDom(inst) == NextPow2(inst.rows)                 \* size of the trace domain
DegDom(inst) == IF InstDeg(inst) = 0 THEN 1 ELSE NextPow2(InstDeg(inst))

\* constraints in the order in which their coefficients are drawn: grouped by their rows, groups by first occurrence
Dens(c) == << c.start, c.span >>
DrawOrder(inst) ==
  LET n == Len(inst.cons)
      firsts == SelectSeq([i \in 1..n |-> i], LAMBDA i : \A j \in 1..(i - 1) : Dens(inst.cons[j]) # Dens(inst.cons[i]))
  IN FlattenSeq([k \in 1..Len(firsts) |-> SelectSeq([i \in 1..n |-> i], LAMBDA i : Dens(inst.cons[i]) = Dens(inst.cons[firsts[k]]))])

\* distinct << register, step >> in order of appearance; steps are modulo the trace domain
Distinct(s) == FoldLeft(LAMBDA acc, x : IF \E i \in 1..Len(acc) : acc[i] = x THEN acc ELSE Append(acc, x), <<>>, s)
Masks(inst) ==
  LET n == RowsDom(inst)
      us == FlattenSeq([i \in 1..Len(inst.cons) |-> AllU(inst.cons[i])])
  IN Distinct([i \in 1..Len(us) |-> << us[i].r, us[i].s % n >>] \o [i \in 1..Len(inst.bc) |-> << inst.bc[i].r, 0 >>])

NumCoefs(inst) == 2 * (Len(inst.cons) + Len(inst.bc))
NumDraws(inst) == NumCoefs(inst) + 1 + Len(Masks(inst))

\* value of a constraint when the cell << register, step >> has value v[<<register, step>>]
ConAt(p, con, v, n) ==
  FoldLeft(LAMBDA acc, t :
     (acc + FoldLeft(LAMBDA a, u : (a * ((u.c * FPow(p, v[<< u.r, u.s % n >>], u.e)) % p)) % p, t.c, t.u)) % p,
     con.c, con.terms)

\* product of (x - root) over the rows of the trace domain the constraint does not cover; roots holds the domain's elements
Uncovered(con, rows, n) == {i \in 0..(n - 1) : i < con.start \/ i >= rows - con.span}
NotCovered(p, con, rows, n, x, roots) ==
  FoldLeft(LAMBDA acc, i : (acc * ((x - roots[i + 1]) % p)) % p, 1, SetToSeq(Uncovered(con, rows, n)))
\* 1 / (vanishing polynomial of the covered rows) at x, for x not on the trace domain
InvVanish(p, con, rows, n, x, roots) == (NotCovered(p, con, rows, n, x, roots) * FInv(p, (FPow(p, x, n) - 1) % p)) % p

Adjust(p, adj, al, be, x) == IF adj = 0 THEN al ELSE (((al * FPow(p, x, adj)) % p) + be) % p

\* the composition at x from the values v of the cells at x, coefficients co in drawing order ord
CombinedBy(p, inst, co, v, x, ord, roots) ==
  LET n == RowsDom(inst)
      d == InstDeg(inst)
      nc == Len(ord)
      con == [k \in 1..nc |->
                LET c == inst.cons[ord[k]] IN
                (((ConAt(p, c, v, n) * Adjust(p, d - c.deg, co[2 * k - 1], co[2 * k], x)) % p) * InvVanish(p, c, inst.rows, n, x, roots)) % p]
      bcs == [k \in 1..Len(inst.bc) |->
                LET b == inst.bc[k] IN
                (((((v[<< b.r, 0 >>] - b.v) % p) * Adjust(p, d - 1, co[2 * (nc + k) - 1], co[2 * (nc + k)], x)) % p)
                  * FInv(p, (x - FPow(p, Omega(p, n), b.row)) % p)) % p]
  IN (SumSeqP(p, con) + SumSeqP(p, bcs)) % p
Roots(p, inst) == Powers(p, Omega(p, RowsDom(inst)), RowsDom(inst))
Combined(p, inst, co, v, x) == CombinedBy(p, inst, co, v, x, TLCEval(DrawOrder(inst)), Roots(p, inst))

\* cells at x from the witness polynomials
CellsAt(p, inst, polys, x) ==
  LET n == RowsDom(inst) w == Omega(p, n) ms == {Masks(inst)[i] : i \in 1..Len(Masks(inst))} IN
  TLCEval([m \in ms |-> PEval(p, polys[m[1] + 1], (x * FPow(p, w, m[2])) % p)])

WitPolys(p, inst, w) == TLCEval([i \in 1..Len(w) |-> IDft(p, PPad(w[i], RowsDom(inst)), Omega(p, RowsDom(inst)))])

\* the composition, as defined, at those of the points s w^0, s w^1, .. (w of order m) whose index passes Want; a step of the
\* trace is a move by m/n among these points
CombinedOver(p, inst, co, polys, m, s, Want(_)) ==
  LET n == RowsDom(inst)
      q == m \div n
      tabs == TLCEval([r \in 1..Len(polys) |-> CosetDft(p, PPad(polys[r], m), Omega(p, m), s)])
      xs == Powers(p, Omega(p, m), m)
      ms == TLCEval({Masks(inst)[i] : i \in 1..Len(Masks(inst))})
      ord == TLCEval(DrawOrder(inst))
      roots == Roots(p, inst)
  IN TLCEval([j \in 1..m |-> IF ~Want(j) THEN -1
              ELSE CombinedBy(p, inst, co, TLCEval([c \in ms |-> tabs[c[1] + 1][((j - 1 + q * c[2]) % m) + 1]]), (s * xs[j]) % p, ord, roots)])
\* values of the composition on the shifted constraint domain
GCoset(p, inst, co, polys) == CombinedOver(p, inst, co, polys, RowsDom(inst) * DegDom(inst), FGen(p), LAMBDA j : TRUE)
\* and as the code gets the cells, from its own extensions (see LdeDefect)
GCosetAsCoded(p, inst, co, polys, cpus) ==
  LET n == RowsDom(inst) m == n * DegDom(inst) w == Omega(p, m) g == FGen(p)
      ms == TLCEval(Masks(inst))
      ord == TLCEval(DrawOrder(inst))
      roots == Roots(p, inst)
      ext == TLCEval([k \in 1..Len(ms) |->
               LET a == polys[ms[k][1] + 1] pw == Powers(p, FPow(p, Omega(p, n), ms[k][2]), n)
               IN LdeAsCoded(p, TLCEval([i \in 1..n |-> (a[i] * pw[i]) % p]), DegDom(inst), cpus, g)])
      at(x) == CHOOSE k \in 1..Len(ms) : ms[k] = x
  IN TLCEval([j \in 1..m |-> CombinedBy(p, inst, co, TLCEval([x \in {ms[k] : k \in 1..Len(ms)} |-> ext[at(x)][j]]), (g * FPow(p, w, j - 1)) % p, ord, roots)])
GPoly(p, inst, vals) == CosetIDft(p, vals, Omega(p, Len(vals)), FGen(p))

\* sum over the pairs of alpha (f(x) - claimed) / (x - mask z), fx the registers' values at x
H1At(p, inst, fx, fz, al, z, x) ==
  LET ms == Masks(inst) w == Omega(p, RowsDom(inst)) IN
  FoldLeft(LAMBDA acc, k :
     FAdd(p, acc, FMul(p, al[k], FMul(p, FSub(p, fx[ms[k][1] + 1], fz[k]), FInv(p, (x - ((FPow(p, w, ms[k][2]) * z) % p)) % p)))),
     0, [k \in 1..Len(ms) |-> k])
H2At(p, gx, gz, z, x) == (((gx - gz) % p) * FInv(p, (x - z) % p)) % p
=============================================================================
