------------------------------ MODULE TraceInst ------------------------------
(***************************************************************************)
(* Recorded instances, traces and what the real code made of them          *)
(* (C15, C16, C21, C22).                                                   *)
(***************************************************************************)
EXTENDS Air, Cases

Req(b, msg) == IF b THEN "ok" ELSE "bad " \o msg
Refused(g) == g \in {"err", "panic"}
Cell(w, i, t, p) == [w EXCEPT ![i + 1][t + 1] = (@ + 1) % p]

-----------------------------------------------------------------------------
(* C15 *)
SatVerdict(p, inst, w, got) ==
  LET s == Satisfied(p, inst, w) IN
  IF s = "yes" THEN Req(got = "ok", "satisfying trace refused: " \o got)
  ELSE IF s = "beyond" /\ got = "panic" /\ \A i \in 1..Len(inst.bc) : inst.bc[i].row < Len(w[1]) THEN "bad read beyond the trace is not reported as an error"
  ELSE Req(Refused(got), "violating trace accepted")
ArpVerdict(c) ==
  LET v == SatVerdict(c.p, c.inst, c.w, c.got)
      bad == {j \in 1..Len(c.cells) : SatVerdict(c.p, c.inst, Cell(c.w, c.cells[j][1], c.cells[j][2], c.p), c.cells[j][3]) # "ok"}
  IN IF v # "ok" THEN v
     ELSE IF bad = {} THEN "ok" ELSE "bad verdict with cell " \o ToString(c.cells[Min(bad)]) \o " changed"

-----------------------------------------------------------------------------
(* C16: the shape is refused unless it is the instance's; otherwise every   *)
(* register's polynomial takes the trace's values on the rows              *)
ShapeOk(c) == /\ Len(c.w) = c.inst.regs
              /\ \A i \in 1..Len(c.w) : Len(c.w[i]) = c.inst.rows
PolyOk(p, poly, col, dsize) ==
  LET t == PTrim(poly) w == Omega(p, dsize) IN
  /\ Len(t) <= dsize
  /\ LET vals == Dft(p, PPad(t, dsize), w) IN \A r \in 1..Len(col) : vals[r] = col[r]
WpolyVerdict(c) ==
  IF ~ShapeOk(c) THEN Req(Refused(c.got), "trace of another shape was taken")
  ELSE IF c.got # "ok" THEN "bad trace refused: " \o c.got
  ELSE IF Len(c.polys) # Len(c.w) THEN "bad number of polynomials"
  ELSE LET bad == {i \in 1..Len(c.w) : ~PolyOk(c.p, c.polys[i], c.w[i], NextPow2(c.inst.rows))} IN
       IF bad = {} THEN "ok" ELSE "bad polynomial of register " \o ToString(Min(bad) - 1)

-----------------------------------------------------------------------------
(* C21: the meaning of the written expression, built up step by step        *)
UniOf(p, u) ==      \* << coefficient, << kind, register, step >>, exponent >>
  FoldLeft(LAMBDA acc, o :
     CASE o[1] \in {"mul", "mulv"} -> << (acc[1] * (o[2] % p)) % p, acc[2], acc[3] >>
       [] o[1] = "pow" -> << acc[1], acc[2], acc[3] * o[2] >>
       [] o[1] = "step" -> << acc[1], << acc[2][1], acc[2][2], o[2] >>, acc[3] >>,
     << 1 % p, << u.k, u.r, 0 >>, 1 >>, u.ops)
\* << coefficient, sequence of << cell, exponent >> >>
RECURSIVE ProdOf(_, _)
ProdOf(p, q) ==
  FoldLeft(LAMBDA acc, o :
     CASE o[1] = "u" -> LET x == UniOf(p, o[2]) IN << (acc[1] * x[1]) % p, Append(acc[2], << x[2], x[3] >>) >>
       [] o[1] \in {"f", "fv"} -> << (acc[1] * (o[2] % p)) % p, acc[2] >>
       [] o[1] = "from" -> LET x == UniOf(p, o[3]) IN << (acc[1] * (((o[2] % p) * x[1]) % p)) % p, Append(acc[2], << x[2], x[3] >>) >>
       [] o[1] = "p" -> LET x == ProdOf(p, o[2]) IN << (acc[1] * x[1]) % p, acc[2] \o x[2] >>,
     << 1 % p, <<>> >>, q.ops)
Flat(x) == [i \in 1..Len(x) |-> [k |-> x[i][1][1], r |-> x[i][1][2], s |-> x[i][1][3], e |-> x[i][2], c |-> 1]]
Written(p, st) ==   \* one step as << monomial, coefficient, degree >>
  LET sg(c) == IF st[1] \in {"subc", "subu", "subp"} THEN FNeg(p, c) ELSE c % p IN
  CASE st[1] \in {"addc", "subc"} -> << Mono(<<>>), sg(st[2]), 0 >>
    [] st[1] \in {"addu", "subu"} -> LET x == UniOf(p, st[2]) IN << Mono(Flat(<< << x[2], x[3] >> >>)), sg(x[1]), x[3] >>
    [] st[1] \in {"addp", "subp"} -> LET x == ProdOf(p, st[2]) IN << Mono(Flat(x[2])), sg(x[1]), FoldLeft(LAMBDA acc, y : acc + y[2], 0, x[2]) >>
BuildVerdict(c) ==
  LET ws == TLCEval([i \in 1..Len(c.steps) |-> Written(c.p, c.steps[i])]) IN
  IF Formal(c.p, c.con) # Collect(c.p, ws) THEN "bad constraint does not mean the written expression"
  ELSE IF c.con.deg # FoldLeft(LAMBDA acc, x : Max2(acc, x[3]), 0, ws) THEN "bad stated degree " \o ToString(c.con.deg)
  ELSE Req(\A i \in 1..Len(c.con.terms) : c.con.terms[i].td = TermDeg(c.con.terms[i]), "stated degree of a term")

-----------------------------------------------------------------------------
(* C22 *)
SqStep(p, a) == << FSub(p, (a[1] * a[1]) % p, (a[2] * a[2]) % p), (2 * ((a[1] * a[2]) % p)) % p >>
MulC(p, a, b) == << FSub(p, (a[1] * b[1]) % p, (a[2] * b[2]) % p), FAdd(p, (a[1] * b[2]) % p, (a[2] * b[1]) % p) >>
\* the computation a builder is for, row by row
Rows(c) ==
  LET b == c.builder p == c.p n == b.n s0 == << b.c0 % p, b.c1 % p >> IN
  CASE b.which = "vdf" -> FoldLeft(LAMBDA acc, i : Append(acc, SqStep(p, acc[Len(acc)])), << s0 >>, [i \in 1..n |-> i])
    [] b.which = "cubic" -> LET cs == FoldLeft(LAMBDA acc, i : LET x == acc[Len(acc)] IN Append(acc, MulC(p, SqStep(p, x), x)), << s0 >>, [i \in 1..n |-> i])
                            IN [i \in 1..(n + 1) |-> cs[i] \o SqStep(p, cs[i])]
    [] b.which = "fib" -> FoldLeft(LAMBDA acc, i : LET x == acc[Len(acc)] IN Append(acc, << x[2], (x[1] + x[2]) % p >>), << << 1, 1 >> >>, [i \in 1..n |-> i])
Free(c, i, t) == \/ c.builder.which = "cubic" /\ i >= 2 /\ t = c.builder.n        \* cells no constraint or boundary pins
                 \/ c.builder.which = "fib" /\ c.builder.n = 0
BuilderVerdict(c) ==
  LET rw == TLCEval(Rows(c)) s == Satisfied(c.p, c.inst, c.w)
      finalRight == c.builder.which # "fib" \/ ~Has(c.builder, "final") \/ rw[c.builder.at + 1][2] = c.builder.final % c.p
  IN IF ~(c.inst.rows = c.builder.n + 1 /\ c.inst.regs = Len(c.w) /\ Len(c.w) = Len(rw[1])) THEN "bad stated numbers of rows or registers"
     ELSE IF \E i \in 1..Len(c.w) : Len(c.w[i]) # c.inst.rows THEN "bad length of the trace"
     ELSE IF \E i \in 1..Len(c.w), t \in 1..c.inst.rows : c.w[i][t] # rw[t][i] THEN "bad trace is not the computation's"
     ELSE IF (s = "yes") # finalRight THEN "bad generated trace does not satisfy the generated instance"
     ELSE IF SatVerdict(c.p, c.inst, c.w, c.got) # "ok" THEN SatVerdict(c.p, c.inst, c.w, c.got)
     ELSE IF \E j \in 1..Len(c.cells) : ~Free(c, c.cells[j][1], c.cells[j][2]) /\ ~Refused(c.cells[j][3]) THEN "bad trace with a wrong cell satisfies the instance"
     ELSE Req(\A i \in 1..Len(c.inst.cons) : ConDeg(c.inst.cons[i]) <= c.inst.cons[i].deg, "stated degree of a generated constraint")

\* the place of every source register is the one that carries its cells
TraceVerdict(c) ==
  LET keys == {<< c.wit[j].k, c.wit[j].r >> : j \in 1..Len(c.wit)}
      at(x) == LET col == c.wit[CHOOSE j \in 1..Len(c.wit) : << c.wit[j].k, c.wit[j].r >> = x].w IN {i \in 1..Len(c.w) : c.w[i] = col}
      pl == TLCEval([x \in keys |-> IF at(x) = {} THEN 0 ELSE Min(at(x))])
      ren(u) == [u EXCEPT !.k = "r", !.r = pl[<< u.k, u.r >>] - 1]
      rename(con) == [con EXCEPT !.terms = [i \in 1..Len(con.terms) |-> [con.terms[i] EXCEPT !.u = [j \in 1..Len(con.terms[i].u) |-> ren(con.terms[i].u[j])]]]]
      same(a, b) == Formal(c.p, a) = Formal(c.p, b) /\ a.deg = b.deg /\ a.start = b.start /\ a.span = b.span
  IN IF \E x \in keys : Cardinality(at(x)) # 1 THEN "bad a register is lost or duplicated"
     ELSE IF ~(Len(c.w) = Len(c.wit) /\ c.inst.regs = Len(c.wit) /\ c.inst.rows = c.rows) THEN "bad stated numbers of rows or registers"
     ELSE IF \E x, y \in keys : x[1] = y[1] /\ x[2] < y[2] /\ pl[x] >= pl[y] THEN "bad registers out of order"
     ELSE IF ~(Len(c.inst.cons) = Len(c.src) /\ \A i \in 1..Len(c.src) : same(rename(c.src[i]), c.inst.cons[i])) THEN "bad remapped constraints"
     ELSE Req(/\ Len(c.inst.bc) = Len(c.srcb)
              /\ \A i \in 1..Len(c.srcb) : c.inst.bc[i] = [c.srcb[i] EXCEPT !.k = "r", !.r = pl[<< c.srcb[i].k, c.srcb[i].r >>] - 1], "remapped boundary conditions")

-----------------------------------------------------------------------------
Verdict(c) ==
  IF c.res = "absent" THEN "skip builders are not reachable"
  ELSE IF c.res # "ok" THEN "bad " \o c.res
  ELSE CASE c.op = "arp" -> ArpVerdict(c) [] c.op = "wpoly" -> WpolyVerdict(c) [] c.op = "build" -> BuildVerdict(c)
         [] c.op = "builder" -> BuilderVerdict(c) [] c.op = "trace" -> TraceVerdict(c)
VARIABLES k, done, why
vars == << k, done, why >>
Init == k \in 1..Len(Cases) /\ done = FALSE /\ why = "ok"
Judge == ~done /\ done' = TRUE /\ UNCHANGED k /\ why' = Verdict(Cases[k]) /\ Report(k, why')
Next == Judge
Spec == Init /\ [][Next]_vars
Accepted == ~IsBad(why)
=============================================================================
