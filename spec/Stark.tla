-------------------------------- MODULE Stark --------------------------------
(***************************************************************************)
(* The verifier. A proof is a record as recorded from the real code:       *)
(* fz claimed evaluations, fr/gr roots, fq/gq openings, h1r/h2r layer      *)
(* roots, fri1/fri2 low-degree proofs; digests are ids.                    *)
(***************************************************************************)
EXTENDS Ali, Fri

\* what does not depend on challenges: sizes, numbers of parts, roots
WellFormed(inst, lde, pr) ==
  LET n == RowsDom(inst) d == DegDom(inst) IN
  /\ pr.fri1.init = n /\ pr.fri2.init = n * d /\ pr.fri1.lde = lde /\ pr.fri2.lde = lde
  /\ pr.fri1.roots = pr.h1r /\ pr.fri2.roots = pr.h2r /\ Len(pr.h1r) >= 1 /\ Len(pr.h2r) >= 1
  /\ Len(pr.fz) = Len(Masks(inst))
  /\ Len(pr.fq) = inst.regs /\ Len(pr.fr) = inst.regs
  /\ ShapeOk(pr.fri1) /\ ShapeOk(pr.fri2)
  /\ \A k \in 1..Len(inst.bc) : inst.bc[k].has
AllOpen(pr) ==
  /\ \A k \in 1..Len(pr.fq) : Opens(pr.fq[k], pr.fr[k])
  /\ Opens(pr.gq, pr.gr)
  /\ \A k \in 1..Len(pr.fri1.q) : Opens(pr.fri1.q[k], pr.fri1.roots[(k + 1) \div 2])
  /\ \A k \in 1..Len(pr.fri2.q) : Opens(pr.fri2.q[k], pr.fri2.roots[(k + 1) \div 2])

\* z on the extended composition domain is forbidden
Forbidden(p, inst, lde, z) == FPow(p, z, RowsDom(inst) * DegDom(inst) * lde) = 1

Claimed(inst, fz) ==
  LET ms == Masks(inst) IN TLCEval([m \in {ms[k] : k \in 1..Len(ms)} |-> fz[CHOOSE k \in 1..Len(ms) : ms[k] = m]])

\* the decision of the verifier for challenges vc (in drawing order) and positions vi
Accepts(p, inst, lde, pr, vc, vi, ch) ==
  /\ WellFormed(inst, lde, pr)
  /\ LET n == RowsDom(inst) d == DegDom(inst)
         nc == NumCoefs(inst)
         z == vc[nc + 1]
         al == SubSeq(vc, nc + 2, Len(vc))
         x1 == FPow(p, Omega(p, n * lde), vi[1])
         x2 == FPow(p, Omega(p, n * d * lde), vi[2])
         ms == Masks(inst)
     IN /\ AllOpen(pr)
        /\ \A k \in 1..Len(pr.fq) : pr.fq[k].i = vi[1]
        /\ pr.gq.i = vi[2]
        /\ \A k \in 1..Len(ms) : x1 # (FPow(p, Omega(p, n), ms[k][2]) * z) % p
        /\ x2 # z
        /\ Len(inst.cons) > 0 => FPow(p, z, n) # 1
        /\ \A k \in 1..Len(inst.bc) : z # FPow(p, Omega(p, n), inst.bc[k].row)
        /\ FriAccepts(p, pr.fri1, ch, vi[1], H1At(p, inst, [k \in 1..Len(pr.fq) |-> pr.fq[k].v], pr.fz, al, z, x1))
        /\ FriAccepts(p, pr.fri2, ch, vi[2], H2At(p, pr.gq.v, Combined(p, inst, SubSeq(vc, 1, nc), Claimed(inst, pr.fz), z), z, x2))

\* challenge positions -> query position
Position(v, size, lde) ==
  LET a == v % size
      b == IF a % lde = 0 THEN (a + 1) % size ELSE a
  IN IF b % 2 = 0 THEN (b + 1) % size ELSE b
=============================================================================
