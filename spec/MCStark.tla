------------------------------- MODULE MCStark -------------------------------
(***************************************************************************)
(* The whole protocol as a game, with the verifier operator the recorded   *)
(* verdicts are compared with. The prover commits a trace (satisfying or   *)
(* not), the composition (true or shifted by a constant), claims values at *)
(* z (true, or one of them changed), takes the second quotient with its    *)
(* own or with the verifier's value at z, and runs the low-degree tests    *)
(* honestly on what it has. Then every pair of positions is queried.       *)
(***************************************************************************)
EXTENDS Stark
CONSTANTS P, Names, Spread, Zs, LdeF, OutD
U(r, s, e, c) == [k |-> "w", r |-> r, s |-> s, e |-> e, c |-> c]
T(c, us) == [c |-> c, u |-> us]
Con(c, deg, start, span, ts) == [c |-> c, deg |-> deg, start |-> start, span |-> span, terms |-> ts]
Bc(r, row, v) == [k |-> "w", r |-> r, row |-> row, has |-> TRUE, v |-> v]
M1 == P - 1
Insts ==
  ("square"  :> [rows |-> 2, regs |-> 1, cons |-> << Con(0, 2, 0, 1, << T(1, << U(0, 1, 1, 1) >>), T(M1, << U(0, 0, 2, 1) >>) >>) >>, bc |-> << Bc(0, 0, 3) >>])
  @@ ("pair" :> [rows |-> 2, regs |-> 2, cons |-> << Con(0, 1, 0, 1, << T(1, << U(0, 1, 1, 1) >>), T(M1, << U(0, 0, 1, 1) >>), T(M1, << U(1, 0, 1, 1) >>) >>) >>, bc |-> << Bc(1, 1, 0) >>])
  @@ ("three" :> [rows |-> 3, regs |-> 1, cons |-> << Con(0, 1, 0, 1, << T(1, << U(0, 1, 1, 1) >>), T(M1, << U(0, 0, 1, 2) >>) >>) >>, bc |-> << Bc(0, 2, 4) >>])
VARIABLES name, w, co, gs, z, df, al, own, fold
vars == << name, w, co, gs, z, df, al, own, fold >>
inst == Insts[name]
N == RowsDom(inst)
M == N * DegDom(inst)
Coefs == LET k == NumCoefs(inst) IN {[i \in 1..k |-> 1 + ((3 * i) % 5)], [i \in 1..k |-> IF i = k THEN 1 ELSE 7 + i]}
Alphas == LET k == Len(Masks(inst)) IN {[i \in 1..k |-> i], [i \in 1..k |-> 5 + i * i]}
Init == /\ name \in Names /\ w \in [1..inst.regs -> [1..inst.rows -> Spread]]
        /\ co = <<>> /\ gs = -1 /\ z = -1 /\ df = -1 /\ al = <<>> /\ own = FALSE /\ fold = -1
DrawCoefs == co = <<>> /\ co' \in Coefs /\ UNCHANGED << name, w, gs, z, df, al, own, fold >>
CommitG == co # <<>> /\ gs = -1 /\ gs' \in {0, 1} /\ UNCHANGED << name, w, co, z, df, al, own, fold >>
DrawZ == gs # -1 /\ z = -1 /\ z' \in Zs /\ UNCHANGED << name, w, co, gs, df, al, own, fold >>
Claim == z # -1 /\ df = -1 /\ df' \in 0..Len(Masks(inst)) /\ UNCHANGED << name, w, co, gs, z, al, own, fold >>
DrawAl == df # -1 /\ al = <<>> /\ al' \in Alphas /\ own' \in BOOLEAN /\ UNCHANGED << name, w, co, gs, z, df, fold >>
DrawFold == al # <<>> /\ fold = -1 /\ fold' \in {4} /\ UNCHANGED << name, w, co, gs, z, df, al, own >>
Next == DrawCoefs \/ CommitG \/ DrawZ \/ Claim \/ DrawAl \/ DrawFold
Spec == Init /\ [][Next]_vars

polys == WitPolys(P, inst, w)
TrueG == GPoly(P, inst, GCoset(P, inst, co, polys))
G == LET t == TrueG IN TLCEval([t EXCEPT ![1] = (@ + gs) % P])
TrueFz == LET ms == Masks(inst) IN TLCEval([k \in 1..Len(ms) |-> PEval(P, polys[ms[k][1] + 1], (FPow(P, Omega(P, N), ms[k][2]) * z) % P)])
Fz == LET t == TrueFz IN IF df = 0 THEN t ELSE [t EXCEPT ![df] = (@ + 1) % P]
Seen == Combined(P, inst, co, Claimed(inst, Fz), z)         \* the verifier's value of the composition at z
Run ==
  LET w1 == Omega(P, N * LdeF) w2 == Omega(P, M * LdeF)
      gp == G fz == Fz
      gz == IF own THEN PEval(P, gp, z) ELSE Seen
      fl == [r \in 1..inst.regs |-> TLCEval([j \in 1..(N * LdeF) |-> PEval(P, polys[r], FPow(P, w1, j - 1))])]
      gl == TLCEval([j \in 1..(M * LdeF) |-> PEval(P, gp, FPow(P, w2, j - 1))])
      h1 == TLCEval([j \in 1..(N * LdeF) |-> H1At(P, inst, [r \in 1..inst.regs |-> fl[r][j]], fz, al, z, FPow(P, w1, j - 1))])
      h2 == TLCEval([j \in 1..(M * LdeF) |-> H2At(P, gl[j], gz, z, FPow(P, w2, j - 1))])
      lays(h, n) == Layers(P, h, [k \in 1..Steps(n, OutD) |-> fold])
      l1 == TLCEval(lays(h1, N)) l2 == TLCEval(lays(h2, M))
      root(b, k) == b * 100 + k
      fin(l) == LET t == l[Len(l)] IN SubSeq(IDft(P, t, Omega(P, Len(t))), 1, OutD)
      open(b, ls, i) == FlattenSeq([k \in 1..Len(ls) |-> LET h == Len(ls[k]) \div 2 a == i % h IN
                          << [i |-> a, v |-> ls[k][a + 1], t |-> << root(b, k) >>], [i |-> a + h, v |-> ls[k][a + h + 1], t |-> << root(b, k) >>] >>])
      fri(b, ls, n, i) == [roots |-> [k \in 1..Len(ls) |-> root(b, k)], q |-> open(b, ls, i), coefs |-> fin(ls), init |-> n, out |-> OutD, lde |-> LdeF]
      proof(i1, i2) ==
        [fz |-> fz, fr |-> [r \in 1..inst.regs |-> r], gr |-> 50,
         fq |-> [r \in 1..inst.regs |-> [i |-> i1, v |-> fl[r][i1 + 1], t |-> << r >>]],
         gq |-> [i |-> i2, v |-> gl[i2 + 1], t |-> << 50 >>],
         h1r |-> [k \in 1..Len(l1) |-> root(1, k)], h2r |-> [k \in 1..Len(l2) |-> root(2, k)],
         fri1 |-> fri(1, l1, N, i1), fri2 |-> fri(2, l2, M, i2)]
      ch == [r \in {root(1, k) : k \in 1..Len(l1)} \cup {root(2, k) : k \in 1..Len(l2)} |-> fold]
      adm(n) == {i \in 0..(n - 1) : i % 2 = 1 /\ i % LdeF # 0}
      acc(i1, i2) == Accepts(P, inst, LdeF, proof(i1, i2), (co \o << z >>) \o al, << i1, i2 >>, ch)
      o1 == CHOOSE i \in adm(N * LdeF) : TRUE
      o2 == CHOOSE i \in adm(M * LdeF) : TRUE
  IN \* positions are independent of each other: all of one with one of the other
     [all |-> (\A i \in adm(N * LdeF) : acc(i, o2)) /\ (\A i \in adm(M * LdeF) : acc(o1, i))]
Usable == ~Forbidden(P, inst, LdeF, z)
Done == fold # -1
Sat == Satisfied(P, inst, w) = "yes"
HonestRun == gs = 0 /\ df = 0
\* Complete: an honest run of a satisfied instance is accepted wherever it is queried.
\* Sound: accepted wherever it is queried only if every claim is true and the composition's value at z is the combined one.
\* Exceptional: in that case it is accepted whatever the trace.
Game == (Done /\ Usable) =>
  LET r == Run.all exc == df = 0 /\ PEval(P, G, z) = Seen IN
  /\ (Sat /\ HonestRun) => r
  /\ r <=> exc
=============================================================================
