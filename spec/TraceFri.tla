------------------------------- MODULE TraceFri -------------------------------
(***************************************************************************)
(* Recorded runs of the low-degree test on its own: layers, challenges and *)
(* coefficients of the prover (C19), proofs at positions and forged proofs *)
(* with the verifier's decision (C20).                                     *)
(***************************************************************************)
EXTENDS Fri, Lde, Cases

Prop == IOEnv.PROP
Req(b, msg) == IF b THEN "ok" ELSE "bad " \o msg
FirstBad(s) == LET b == {i \in 1..Len(s) : s[i] # "ok"} IN IF b = {} THEN "ok" ELSE s[Min(b)]
Exact(c) == c.p # 0
Low(c) == Get(c, "over", 0) = 0 /\ Get(c, "noise", 0) = 0
Cpus(c) == Get(c, "cpus", 1)
Leaves(c, r) == c.trees[CHOOSE i \in 1..Len(c.trees) : c.trees[i].id = r].leaves
St(c) == Steps(c.deg, c.out)

-----------------------------------------------------------------------------
(* C19: a prototype holds the layers folded with the challenges of their roots *)
RootSeq(b) == << b.l0 >> \o b.roots
LayerSeq(c, b) == << c.vals >> \o b.layers
ProtoVerdict(c, b) ==
  LET rs == RootSeq(b) ls == LayerSeq(c, b) st == St(c) p == c.p last == ls[Len(ls)] IN
  IF ~(Len(b.layers) = st /\ Len(b.roots) = st) THEN "bad number of layers"
  ELSE IF ~(b.init = c.deg /\ b.out = c.out /\ b.lde = c.lde) THEN "bad stated sizes"
  ELSE IF ~(Len(b.ch) >= st /\ \A j \in 1..st : b.ch[j] = c.digch[rs[j]]) THEN "bad challenge of a layer"
  ELSE IF \E j \in 1..Len(rs) : Leaves(c, rs[j]) # ls[j] THEN "bad commitment of a layer"
  ELSE IF b.getroots # rs \/ b.final # rs[Len(rs)] THEN "bad roots reported"
  ELSE "ok"
FoldsOk(c, b) ==
  LET ls == LayerSeq(c, b) IN
  \A j \in 1..St(c) : ls[j + 1] = Fold(c.p, ls[j], Omega(c.p, Len(ls[j])), c.digch[RootSeq(b)[j]])
CoefsOk(c, b) ==
  LET ls == LayerSeq(c, b) last == ls[Len(ls)] co == IDft(c.p, last, Omega(c.p, Len(last))) IN
  /\ b.coefs = SubSeq(co, 1, c.out)
  /\ Low(c) => PDeg(co) < c.out
\* folding through coefficients: coefficients of the layers, extended by the library's own (defective) extension
RECURSIVE CoefLayers(_, _, _)
CoefLayers(p, a, chs) == IF chs = <<>> THEN << a >> ELSE << a >> \o CoefLayers(p, TLCEval(FoldCoefs(p, a, chs[1])), Tail(chs))
ThroughCoded(c, b) ==
  LET ls == LayerSeq(c, b)
      cs == CoefLayers(c.p, SubSeq(IDft(c.p, c.vals, Omega(c.p, c.n)), 1, c.deg), SubSeq(b.ch, 1, St(c)))
  IN /\ \A j \in 1..St(c) : ls[j + 1] = LdeAsCoded(c.p, cs[j + 1], c.lde, Cpus(c), 1)
     /\ b.coefs = PPad(cs[Len(cs)], c.out)
C19V(c) ==
  IF c.got # "ok" THEN (IF Low(c) THEN "bad no layers: " \o c.got ELSE "skip no layers of a word that is not of low degree")
  ELSE IF ~Exact(c) THEN (IF c.thr = "ok" /\ c.samethr THEN "ok" ELSE IF LdeDefect(c.lde, Cpus(c)) THEN "known D1" ELSE "bad the two ways of folding differ")
  ELSE LET v == ProtoVerdict(c, c.byv) IN
       IF v # "ok" THEN v
       ELSE IF ~FoldsOk(c, c.byv) THEN "bad fold by values"
       ELSE IF ~CoefsOk(c, c.byv) THEN "bad final coefficients"
       ELSE IF ~Low(c) THEN "ok"
       ELSE IF c.thr # "ok" THEN "bad no layers through coefficients: " \o c.thr
       ELSE LET u == ProtoVerdict(c, c.byc) IN
            IF u # "ok" THEN u \o " (through coefficients)"
            ELSE IF FoldsOk(c, c.byc) /\ CoefsOk(c, c.byc) /\ c.samethr THEN "ok"
            ELSE IF LdeDefect(c.lde, Cpus(c)) /\ ThroughCoded(c, c.byc) THEN "known D1"
            ELSE "bad fold through coefficients"

-----------------------------------------------------------------------------
(* C20 *)
Acc(c, pr, i, v, got) ==
  LET a == FriAccepts(c.p, pr, c.digch, i, v) IN
  Req(a = (got = "yes"), IF a THEN "consistent folding rejected: " \o got ELSE "inconsistent folding accepted")
Inc(p, x) == (x + 1) % p
PosVerdict(c, x) ==
  LET odd == x.i % 2 = 1 v == c.vals[x.i + 1] IN
  IF x.prod # "ok" THEN (IF odd THEN "bad no proof at a position: " \o x.prod ELSE "ok")
  ELSE IF odd /\ Low(c) /\ ~(x.true = "yes" /\ x.trait = "yes") THEN "bad honest proof rejected: " \o x.true
  ELSE IF odd /\ Low(c) /\ x.proto # "yes" THEN "bad self-check of the prover: " \o x.proto
  ELSE IF odd /\ ~Low(c) /\ x.true = "yes" /\ x.proto # "yes" THEN "bad self-check of the prover disagrees: " \o x.proto
  ELSE IF x.trait # x.true THEN "bad verdict depends on the entry point"
  ELSE IF x.plus1 = "yes" THEN "bad other value accepted"
  ELSE IF x.rand = "yes" /\ x.randv # v THEN "bad other value accepted"
  ELSE IF ~Exact(c) THEN Req((x.j - x.i) % (c.n \div 2) = 0 \/ x.other # "yes", "other position accepted")
  ELSE FirstBad(<< Acc(c, x.pr, x.i, v, x.true), Acc(c, x.pr, x.i, Inc(c.p, v), x.plus1), Acc(c, x.pr, x.i, x.randv, x.rand),
                   Acc(c, x.pr, x.j, c.vals[x.j + 1], x.other) >>)
C20V(c) ==
  IF c.got # "ok" THEN (IF Low(c) THEN "bad no layers: " \o c.got ELSE "skip no layers of a word that is not of low degree")
  ELSE LET v == FirstBad([k \in 1..Len(c.pos) |-> PosVerdict(c, c.pos[k])]) IN
       IF v # "ok" THEN v
       ELSE IF ~Exact(c) THEN FirstBad([k \in 1..Len(c.forged) |-> LET f == c.forged[k] IN
              IF f.got = "panic" THEN "bad panic on a forged proof" ELSE Req(~(f.must /\ f.got = "yes"), "altered proof accepted [" \o f.k \o "]")])
       ELSE FirstBad([k \in 1..Len(c.forged) |-> LET f == c.forged[k] u == Acc(c, f.pr, f.i, f.v, f.got) IN IF u = "ok" THEN u ELSE u \o " [" \o f.k \o "]"])

Verdict(c) ==
  IF c.res # "ok" THEN "bad " \o c.res
  ELSE CASE Prop = "C19" -> C19V(c) [] Prop = "C20" -> C20V(c)
VARIABLES k, done, why
vars == << k, done, why >>
Init == k \in 1..Len(Cases) /\ done = FALSE /\ why = "ok"
Judge == ~done /\ done' = TRUE /\ UNCHANGED k /\ why' = Verdict(Cases[k]) /\ Report(k, why')
Next == Judge
Spec == Init /\ [][Next]_vars
Accepted == ~IsBad(why)
=============================================================================
