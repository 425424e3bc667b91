------------------------------ MODULE TraceStark ------------------------------
(***************************************************************************)
(* Recorded protocol runs: instance, trace, commitments, challenges, proof,*)
(* the verifier's verdict on it and on altered copies (C01-C07, C17, C18). *)
(***************************************************************************)
EXTENDS Stark, Cases

Prop == IOEnv.PROP
Req(b, msg) == IF b THEN "ok" ELSE "bad " \o msg
FirstBad(s) == LET b == {i \in 1..Len(s) : s[i] # "ok"} IN IF b = {} THEN "ok" ELSE s[Min(b)]
Exact(c) == c.p # 0                                     \* field small enough to recompute everything
Cpus(c) == Get(c, "cpus", 1)
VLde(c) == Get(c, "vlde", c.lde)
Defect(c) == LdeDefect(c.lde, Cpus(c)) \/ LdeDefect(DegDom(c.inst), Cpus(c))
Tree(c, r) == c.trees[CHOOSE i \in 1..Len(c.trees) : c.trees[i].id = r]
HasTree(c, r) == \E i \in 1..Len(c.trees) : c.trees[i].id = r
ZOf(c) == c.pc[NumCoefs(c.inst) + 1]
ZDrawn(c) == Len(c.pc) > NumCoefs(c.inst)

-----------------------------------------------------------------------------
(* C17: the committed composition                                           *)
Leaves(c, r) == Tree(c, r).leaves
GLeavesOk(c, gr) ==
  LET polys == WitPolys(c.p, c.inst, c.w)
      g == GPoly(c.p, c.inst, GCoset(c.p, c.inst, c.pc, polys))
      l == Leaves(c, gr)
  IN IF l = Lde(c.p, g, c.lde) THEN "ok"
     ELSE IF Defect(c) /\ l = LdeAsCoded(c.p, GPoly(c.p, c.inst, GCosetAsCoded(c.p, c.inst, c.pc, polys, Cpus(c))), c.lde, Cpus(c), 1) THEN "known D1"
     ELSE "bad committed composition polynomial"
\* every value on the extended domain is the quotient's, for a satisfying trace and points off the trace domain; for a
\* violating one the quotient is no polynomial and differs somewhere off the shifted domain
GEverywhere(c, gr) ==
  LET l == Leaves(c, gr)
      m == Len(l) \div RowsDom(c.inst)
      off(j) == (j - 1) % m # 0
      should == CombinedOver(c.p, c.inst, c.pc, WitPolys(c.p, c.inst, c.w), Len(l), 1, off)
  IN \A j \in 1..Len(l) : off(j) => l[j] = should[j]
C17V(c) ==
  IF c.proved # "ok" THEN (IF c.proved = "err" /\ ZDrawn(c) /\ Forbidden(c.p, c.inst, c.lde, ZOf(c)) THEN "ok" ELSE "bad no proof: " \o c.proved)
  ELSE LET v == GLeavesOk(c, c.proof.gr) IN
       IF v # "ok" THEN v
       ELSE IF Satisfied(c.p, c.inst, c.w) = "yes" THEN Req(GEverywhere(c, c.proof.gr), "composition is not the quotient off the trace domain") ELSE "ok"

-----------------------------------------------------------------------------
(* C18: claimed evaluations and the two quotients                           *)
FLeavesV(c) ==
  FirstBad([i \in 1..Len(c.proof.fr) |->
     LdeOk(c.p, IDft(c.p, PPad(c.w[i], RowsDom(c.inst)), Omega(c.p, RowsDom(c.inst))), c.lde, Cpus(c), 1, Leaves(c, c.proof.fr[i]))])
C18V(c) ==
  IF c.proved # "ok" THEN (IF c.proved = "err" /\ ZDrawn(c) /\ Forbidden(c.p, c.inst, c.lde, ZOf(c)) THEN "ok" ELSE "bad no proof: " \o c.proved)
  ELSE
  LET p == c.p n == RowsDom(c.inst) ms == Masks(c.inst) z == ZOf(c)
      al == SubSeq(c.pc, NumCoefs(c.inst) + 2, Len(c.pc))
      polys == WitPolys(p, c.inst, c.w)
      fz == TLCEval([k \in 1..Len(ms) |-> PEval(p, polys[ms[k][1] + 1], (FPow(p, Omega(p, n), ms[k][2]) * z) % p)])
      fl == TLCEval([i \in 1..Len(c.proof.fr) |-> Leaves(c, c.proof.fr[i])])
      gl == Leaves(c, c.proof.gr)
      gc == IDft(p, gl, Omega(p, Len(gl)))
      gz == PEval(p, gc, z)
      h1 == Leaves(c, c.proof.h1r[1])
      h2 == Leaves(c, c.proof.h2r[1])
      w1 == Omega(p, Len(h1)) w2 == Omega(p, Len(h2))
      i1 == c.pi[1] i2 == c.pi[2]
      fv == FLeavesV(c)
      q1 == H1At(p, c.inst, [k \in 1..Len(c.proof.fq) |-> c.proof.fq[k].v], c.proof.fz, al, z, FPow(p, w1, i1))
      q2 == H2At(p, c.proof.gq.v, Combined(p, c.inst, c.pc, Claimed(c.inst, c.proof.fz), z), z, FPow(p, w2, i2))
  IN IF c.proof.fz # fz THEN "bad claimed evaluations"
     ELSE IF ~(Len(h1) = n * c.lde /\ Len(h2) = n * DegDom(c.inst) * c.lde) THEN "bad sizes of the quotients"
     ELSE IF \E j \in 1..Len(h1) : h1[j] # H1At(p, c.inst, [i \in 1..Len(fl) |-> fl[i][j]], fz, al, z, FPow(p, w1, j - 1)) THEN "bad first quotient"
     ELSE IF ~Defect(c) /\ (\E j \in 1..Len(h2) : h2[j] # H2At(p, gl[j], gz, z, FPow(p, w2, j - 1))) THEN "bad second quotient"
     ELSE IF Defect(c) /\ (\E j \in 1..Len(h2) : h2[j] # H2At(p, gl[j], (gl[1] - h2[1] * ((1 - z) % p)) % p, z, FPow(p, w2, j - 1))) THEN "bad second quotient"
     ELSE IF q1 # h1[i1 + 1] THEN "bad value recomputed for the first quotient"
     ELSE IF ~Defect(c) /\ Satisfied(p, c.inst, c.w) = "yes" /\ q2 # h2[i2 + 1] THEN "bad value recomputed for the second quotient"
     ELSE fv

-----------------------------------------------------------------------------
(* C01 *)
C01V(c) ==
  IF Exact(c) /\ Satisfied(c.p, c.inst, c.w) # "yes" THEN "skip not a satisfying trace"
  ELSE IF c.proved = "err" /\ Exact(c) /\ ZDrawn(c) /\ Forbidden(c.p, c.inst, c.lde, ZOf(c)) THEN "ok"
  ELSE IF c.proved # "ok" THEN "bad no proof of a satisfied instance: " \o c.proved
  ELSE IF c.ver.got = "yes" THEN Req(c.stable, "verdict is not repeatable")
  ELSE IF Defect(c) /\ (~Exact(c) \/ ~IsBad(FLeavesV(c))) THEN "known D1"
  ELSE "bad honest proof not accepted: " \o c.ver.got

-----------------------------------------------------------------------------
(* the verdict is the protocol's: C02, and for altered proofs C03, C05, C07 *)
AgreesFor(c, inst, pr, r) ==
  LET full == Len(r.vc) = NumDraws(inst) /\ Len(r.vi) = 2
      lde == VLde(c)
  IN IF ~full THEN
       (IF r.got = "yes" THEN "bad accepted without drawing the challenges"
        ELSE Req(~(WellFormed(inst, lde, pr) /\ AllOpen(pr)), "no challenges drawn for a well-formed proof"))
     ELSE LET a == Accepts(c.p, inst, lde, pr, r.vc, r.vi, c.digch) IN
          Req(a = (r.got = "yes"), IF a THEN "rejected against the equations: " \o r.got ELSE "accepted against the equations")
Agrees(c, pr, r) == AgreesFor(c, c.inst, pr, r)
AllTampers(c, T(_)) == FirstBad([i \in 1..Len(c.tampers) |-> LET v == T(c.tampers[i]) IN IF v = "ok" THEN v ELSE v \o " [" \o c.tampers[i].k \o "]"])

NoVerifier(c) == c.ver.got \in {"newerr", "newpanic"}
C02V(c) ==
  IF c.proved # "ok" THEN "ok"
  ELSE IF ~Exact(c) THEN Req(c.sat = "ok" \/ c.ver.got # "yes", "violating trace accepted")
  ELSE Agrees(c, c.proof, c.ver)

C03V(c) ==
  IF c.proved # "ok" \/ c.ver.got # "yes" THEN "skip no accepted proof to alter"
  ELSE AllTampers(c, LAMBDA t :
         IF t.same THEN Req(t.got = "yes", "same information not accepted")
         ELSE IF Exact(c) THEN Agrees(c, t.proof, t)
         ELSE Req(t.got # "yes", "altered proof accepted"))

Verdicts == {"yes", "no", "err"}
C04V(c) ==
  IF c.proved # "ok" THEN "skip no proof"
  ELSE IF c.ver.got = "newerr" THEN "ok"
  ELSE IF c.ver.got \notin Verdicts THEN "bad verifier: " \o c.ver.got
  ELSE AllTampers(c, LAMBDA t : Req(t.got \in Verdicts, "verifier: " \o t.got))

C05V(c) ==
  IF c.proved # "ok" THEN "skip no proof"
  ELSE IF NoVerifier(c) THEN "ok"
  ELSE LET one(pr, r) == IF r.got = "yes" /\ ~WellFormed(c.inst, VLde(c), pr) THEN "bad low-degree proof of other parameters accepted"
                         ELSE IF ~Exact(c) THEN "ok" ELSE Agrees(c, pr, r)
       IN IF one(c.proof, c.ver) # "ok" THEN one(c.proof, c.ver) ELSE AllTampers(c, LAMBDA t : one(t.proof, t))

-----------------------------------------------------------------------------
(* C06: drawing slot from which on everything depends on a message          *)
\* (an altered message is named << kind, index >>)
Slot(c, m) ==
  CASE m[1] = "f_root" -> 1
    [] m[1] = "g_root" -> NumCoefs(c.inst) + 1
    [] m[1] = "f_at_z" -> NumCoefs(c.inst) + 2 + m[2]
    [] OTHER -> NumDraws(c.inst) + 1
C06V(c) ==
  IF c.proved # "ok" THEN "skip no proof"
  ELSE IF NoVerifier(c) THEN "bad no verifier for the instance of a proof"
  ELSE IF c.ver.vc # c.pc \/ c.ver.vq # c.pq \/ c.ver.vi # c.pi THEN "bad prover and verifier draw different challenges"
  ELSE IF Len(c.pc) # NumDraws(c.inst) \/ Len(c.pq) # 2 THEN "bad number of challenges"
  ELSE IF c.pq[1] = c.pq[2] THEN "bad repeated challenge"
  ELSE IF \E i, j \in 1..Len(c.pc) : i < j /\ c.pc[i] = c.pc[j] THEN "bad repeated challenge"
  ELSE AllTampers(c, LAMBDA t :
         IF Len(t.vc) # Len(c.pc) \/ Len(t.vq) # 2 THEN Req(t.got # "yes", "accepted without drawing the challenges")
         ELSE IF \E j \in Slot(c, t.m)..Len(c.pc) : t.vc[j] = c.pc[j] THEN "bad a later challenge does not depend on the message"
         ELSE IF \E j \in 1..2 : t.vq[j] = c.pq[j] THEN "bad a query position does not depend on the message"
         ELSE Req(t.got # "yes", "changed message accepted"))

-----------------------------------------------------------------------------
(* C07 *)
Admissible(i, size, lde) == i \in 0..(size - 1) /\ i % lde # 0 /\ i % 2 = 1
IdxV(c) ==
  LET adm == {i \in 0..(c.size - 1) : Admissible(i, c.size, c.lde)}
      got == {c.got[k] : k \in 1..Len(c.got)}
  IN IF ~c.det THEN "bad position is not a function of the bytes"
     ELSE IF ~(got \subseteq adm) THEN "bad inadmissible position " \o ToString(Min(got \ adm))
     ELSE Req(adm = got, "position never drawn: " \o ToString(Min(adm \ got)))
\* a large domain: the positions seen are admissible, and every bit of a position (but the lowest) takes both values
IdxsV(c) ==
  LET got == {c.got[k] : k \in 1..Len(c.got)} size == 2 ^ c.lg
  IN IF ~c.det THEN "bad position is not a function of the bytes"
     ELSE IF \E g \in got : ~(g < size /\ g >= 0 /\ g % c.lde # 0 /\ g % 2 = 1) THEN "bad inadmissible position"
     ELSE Req(\A b \in 1..(c.lg - 1) : {(g \div 2 ^ b) % 2 : g \in got} = {0, 1}, "positions with some bit are never drawn")
PosOk(c, pr, r) ==
  r.got = "yes" =>
    /\ Len(r.vi) = 2
    /\ Admissible(r.vi[1], c.sizes[1], c.lde) /\ Admissible(r.vi[2], c.sizes[2], c.lde)
    /\ \A k \in 1..Len(pr.fq) : pr.fq[k].i = r.vi[1]
    /\ pr.gq.i = r.vi[2]
    /\ r.vi[1] \in {pr.fri1.q[1].i, pr.fri1.q[2].i}
    /\ r.vi[2] \in {pr.fri2.q[1].i, pr.fri2.q[2].i}
C07V(c) ==
  IF c.op = "idx" THEN IdxV(c)
  ELSE IF c.op = "idxs" THEN IdxsV(c)
  ELSE IF c.proved # "ok" THEN "skip no proof"
  ELSE IF NoVerifier(c) THEN "bad no verifier for the instance of a proof"
  ELSE IF c.pi # c.ver.vi THEN "bad prover and verifier use different positions"
  ELSE IF ~PosOk(c, c.proof, c.ver) THEN "bad position of an accepted proof"
  ELSE AllTampers(c, LAMBDA t : IF ~PosOk(c, t.proof, t) THEN "bad opening at another position accepted" ELSE Agrees(c, t.proof, t))

-----------------------------------------------------------------------------
(* C23: the verifier of another instance judges by that other instance      *)
WellPosed(inst) ==
  /\ \A i \in 1..Len(inst.cons) : LET k == inst.cons[i] us == AllU(k) IN
       k.start + k.span <= inst.rows /\ \A j \in 1..Len(us) : us[j].s <= k.span
  /\ \A i \in 1..Len(inst.bc) : inst.bc[i].row < inst.rows
C23V(c) ==
  IF c.proved # "ok" THEN "skip no proof"
  ELSE IF ~WellPosed(c.vinst) THEN "skip other instance is not well-formed"
  ELSE IF NoVerifier(c) THEN "skip no verifier for the other instance"
  ELSE IF ~c.stable THEN "bad verdict is not repeatable"
  ELSE IF Exact(c) THEN AgreesFor(c, c.vinst, c.proof, c.ver)
  ELSE Req(c.vsat = "ok" \/ c.ver.got # "yes", "accepted for an instance the trace does not satisfy")

-----------------------------------------------------------------------------
(* C24: a history of calls; the specification's prover and verifier have no *)
(* memory: what a call returns is a function of its arguments               *)
HistV(c) ==
  LET n == Len(c.steps)
      P(i) == c.steps[i][1] = "p"
      V(i) == c.steps[i][1] = "v"
  IN IF c.calls # c.fresh THEN "bad result depends on the history or on the number of threads"
     ELSE IF c.calls # c.together THEN "bad result depends on calls made at the same time"
     ELSE IF \E i, j \in 1..n : c.steps[i] = c.steps[j] /\ c.calls[i] # c.calls[j] THEN "bad same call, other result"
     ELSE IF \E i, j \in 1..n : P(i) /\ P(j) /\ c.steps[i][2] # c.steps[j][2] /\ c.calls[i] = c.calls[j] /\ c.calls[i] # "err" THEN "bad other trace, same proof"
     ELSE IF \E i \in 1..n : c.calls[i] = "panic" THEN "bad panic"
     ELSE IF \E i \in 1..n : V(i) /\ c.sat[c.steps[i][2] + 1] = "ok" /\ c.steps[i][3] = 0 /\ c.calls[i] \notin {"yes", "none"} THEN "bad honest proof not accepted"
     ELSE Req(Exact(c) \/ \A i \in 1..n : (V(i) /\ (c.steps[i][3] # 0 \/ c.sat[c.steps[i][2] + 1] # "ok")) => c.calls[i] # "yes", "wrong proof accepted")

-----------------------------------------------------------------------------
Verdict(c) ==
  IF c.res = "absent" THEN "skip builders are not reachable"
  ELSE IF c.res # "ok" THEN "bad " \o c.res
  ELSE CASE Prop = "C01" -> C01V(c) [] Prop = "C02" -> C02V(c) [] Prop = "C03" -> C03V(c) [] Prop = "C04" -> C04V(c)
         [] Prop = "C05" -> C05V(c) [] Prop = "C06" -> C06V(c) [] Prop = "C07" -> C07V(c) [] Prop = "C17" -> C17V(c) [] Prop = "C18" -> C18V(c)
         [] Prop = "C23" -> C23V(c) [] Prop = "C24" -> HistV(c)
VARIABLES k, done, why
vars == << k, done, why >>
Init == k \in 1..Len(Cases) /\ done = FALSE /\ why = "ok"
Judge == ~done /\ done' = TRUE /\ UNCHANGED k /\ why' = Verdict(Cases[k]) /\ Report(k, why')
Next == Judge
Spec == Init /\ [][Next]_vars
Accepted == ~IsBad(why)
=============================================================================
